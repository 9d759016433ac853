//! C06: whatever a package index calls a hash, it stays inside the stores.
//!
//! Everything happens deep inside a scratch directory; the hostile texts only climb or
//! point to places within it, so that even an escape reaches nothing real.
use crate::common::*;
use crate::srv::*;
use crate::stores::*;
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

const DEPTH: usize = 12;

/// a mode (algorithm name) an index could come up with
fn gen_mode(rng: &fastrand::Rng, outer: &Path) -> String {
    let up = "../".repeat(rng.usize(1..DEPTH - 3));
    let abs = outer.join("canary").display().to_string();
    match rng.u8(0..30) {
        0..=6 => "sha256".into(),
        7 => "SHA256".into(),
        8 => "md5".into(),
        9 => (*pick(rng, &["sha512", "sha384", "sha1", "sha3_256", "blake2b", "sha-256", "Sha256", "sha256d"])).into(),
        10 => "".into(),
        11 => "..".into(),
        12 => ".".into(),
        13 => up.trim_end_matches('/').into(),
        14 => format!("{up}canary"),
        15 => format!("{up}canary/x"),
        16 => abs,
        17 => format!("{abs}/sub"),
        18 => format!("sha256/{up}canary"),
        19 => format!("sha256/../../{}", pick(rng, &["sibling", "sibling/x", "canary"])),
        20 => (*pick(rng, &["../sibling", "../sibling/x", "../other-store", "..\\sibling", "../metadata", "../local-wheels", "../http/tmp"])).into(),
        21 => (*pick(rng, &["sha256\0", "\0", "a\0b", "sha256\n", " sha256", "sha256 ", "shä256", "ﬀ", "\u{202e}", "%2e%2e", "..%2fsibling", "%2e%2e%2fsibling", "..;", "C:", "c:\\x", "\\\\?\\x", "con", "~", "$HOME", "*"])).into(),
        22 => "a".repeat(*pick(rng, &[200, 255, 256, 300, 5000])),
        23 => "tmp".into(),
        24 => format!("./{}", pick(rng, &["sha256", "x/../sha256"])),
        25 => "sha256/".into(),
        26 => "/".into(),
        27 => "//".into(),
        28 => format!("sha256/a/b/c/{}", "d".repeat(10)),
        _ => (0..rng.usize(0..12)).map(|_| *pick(rng, &['.', '/', 's', '2', '-', '_', '\\', '=', '%', ':', ' '])).collect(),
    }
}

fn gen_hex(rng: &fastrand::Rng, good: &str) -> String {
    let n = *pick(rng, &[0usize, 1, 2, 3, 4, 5, 8, 15, 16, 17, 20, 28, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 191, 200, 1000]);
    let h: String = (0..n).map(|_| format!("{:02x}", rng.u8(..))).collect();
    match rng.u8(0..16) {
        0..=3 => good.into(),
        4 => good.to_uppercase(),
        5 => good[..63].into(),
        6 => format!("{good}0"),
        7 => good[..good.len() - 2].into(),
        8 => "../../../../sibling".into(),
        9 => format!("{}/../..", &good[..60]),
        10 => format!("{good}&x=1"),
        11 => format!("={good}"),
        12 => "zz".repeat(32),
        13 => format!("{good}\0"),
        _ => h,
    }
}

struct Lab {
    outer: tempfile::TempDir,
    work: PathBuf,
}

impl Lab {
    fn new() -> Lab {
        let outer = scratch();
        let mut work = outer.path().to_path_buf();
        for i in 0..DEPTH {
            std::fs::create_dir_all(work.join("canary")).unwrap();
            std::fs::write(work.join("canary/file"), "tweet").unwrap();
            work.push(format!("level{i}"));
        }
        for d in ["store", "sibling", "other-store", "canary"] {
            std::fs::create_dir_all(work.join(d)).unwrap();
            std::fs::write(work.join(d).join("mark"), d).unwrap();
        }
        Lab { outer, work }
    }
    /// everything outside the given directories below `work`
    fn outside(&self, but: &[&str]) -> BTreeMap<PathBuf, Node> {
        let rel = self.work.strip_prefix(self.outer.path()).unwrap().to_path_buf();
        inventory(self.outer.path())
            .into_iter()
            .filter(|(p, _)| !but.iter().any(|b| p.starts_with(rel.join(b))))
            .collect()
    }
}

fn diff(a: &BTreeMap<PathBuf, Node>, b: &BTreeMap<PathBuf, Node>) -> Vec<String> {
    let mut d: Vec<String> = b.iter().filter(|(p, n)| a.get(*p) != Some(n)).map(|(p, n)| format!("+{} {n:?}", p.display())).collect();
    d.extend(a.keys().filter(|p| !b.contains_key(*p)).map(|p| format!("-{}", p.display())));
    d
}

/// every way to turn text into a hash
fn parse(rng: &fastrand::Rng, mode: &str, hex: &str) -> Vec<(&'static str, Out<ArtifactHash>)> {
    let text = format!("{mode}={hex}");
    let mut v = vec![("from_hex", run(|| ArtifactHash::from_hex(mode, hex)))];
    match rng.u8(0..3) {
        0 => v.push(("text", run(|| ArtifactHash::try_from(text.as_str())))),
        1 => v.push(("parse", run(|| text.parse::<ArtifactHash>()))),
        _ => v.push(("json", run(|| serde_json::from_value::<ArtifactHash>(json!(text))))),
    }
    v
}

/// Use the hash as a key in every way the stores offer.
fn direct(c: &mut Ctx) {
    let lab = Lab::new();
    let base = lab.work.join("store");
    let mut known: HashMap<ArtifactHash, u64> = HashMap::new();
    let mut before = lab.outside(&["store"]);
    for i in 0..c.n(6000, 100_000) {
        let rng = fastrand::Rng::with_seed(c.rng.u64(..));
        let mode = gen_mode(&rng, lab.outer.path());
        let mut hex = gen_hex(&rng, &sha256_hex(b"x"));
        if let (true, Some((h, _))) = (chance(&rng, 15), known.iter().nth(i % known.len().max(1))) {
            // close to one we know: a byte more, less, or different at either end
            let mut raw = h.raw_data.clone();
            match rng.u8(0..4) {
                0 => raw.push(0),
                1 => {
                    raw.pop();
                }
                2 => raw[0] ^= 1,
                _ => *raw.last_mut().unwrap() ^= 1,
            }
            hex = raw.iter().map(|b| format!("{b:02x}")).collect();
        }
        let what = format!("hash {mode:?} = {hex:?}");
        let mut accepted = None;
        for (how, o) in parse(&rng, &mode, &hex) {
            match o {
                Out::Ok(h) => {
                    // what is accepted is what was said (hex digits in either case)
                    let same = h.raw_data.iter().map(|b| format!("{b:02x}")).collect::<String>() == hex.to_ascii_lowercase();
                    if how == "from_hex" && (!same || !h.mode.eq_ignore_ascii_case(&mode)) {
                        c.violate("misread", format!("{what} is read as {h:?}"));
                    }
                    accepted = Some(h)
                }
                Out::Err(_) => c.count("refused", 1),
                Out::Panic(m) => c.violate("parse-panic", format!("{what} ({how}): {m}")),
            }
        }
        c.case(("direct", &mode, &hex), true);
        let h = match accepted {
            Some(h) => h,
            None => continue,
        };
        c.count("accepted and used as a key", 1);
        let id = *known.entry(h.clone()).or_insert(1000 + i as u64);
        let r = run(|| -> eyre::Result<()> {
            let files = KVFileStore::new(&base.join("f"))?;
            let dirs = KVDirStore::new(&base.join("d"))?;
            let _ = files.lock_if_exists(&h);
            let _ = files.get(&h);
            let mut v = vec![];
            files.get_or_set(&h, |w| Ok(w.write_all(&value(id))?))?.read_to_end(&mut v)?;
            eyre::ensure!(which(&v) == Ok(id), "SHARED: file entry {:?}, expected {id}", which(&v));
            let p = dirs.get_or_set(&h, |p| Ok(fill(p, id, None, || {}).map(|_| ())?))?;
            eyre::ensure!(which_dir(&p) == Ok(id), "SHARED: directory entry {:?}, expected {id}", which_dir(&p));
            eyre::ensure!(p.starts_with(&base), "OUTSIDE: {}", p.display());
            let l = files.lock(&h)?;
            if rng.bool() {
                let mut w = l.begin()?;
                w.write_all(&value(id))?;
                w.commit()?;
            } else {
                // removed and filled again
                l.remove()?;
                files.get_or_set(&h, |w| Ok(w.write_all(&value(id))?))?;
            }
            drop(dirs.lock(&h)?.tempdir()?);
            Ok(())
        });
        match r {
            Out::Ok(()) => {}
            Out::Err(m) if m.contains("SHARED") || m.contains("OUTSIDE") => {
                c.violate("entry-shared", format!("{what}: {m}"));
            }
            // e.g. a file name that is too long for the file system
            Out::Err(_) => c.count("refused by the store", 1),
            Out::Panic(m) => c.violate("store-panic", format!("{what}: {m}")),
        }
        if i % 50 == 0 || h.mode.contains(['/', '.', '\\']) {
            let now = lab.outside(&["store"]);
            let d = diff(&before, &now);
            if !d.is_empty() {
                c.violate("outside-the-store", format!("{what}\n{}", truncate(&d.join("\n"), 1500)));
                before = now;
            }
        }
        if i % 700 == 5 {
            c.sample(json!({"algorithm": truncate(&mode, 80), "digest": truncate(&hex, 80), "accepted": true}));
        }
    }
    let d = diff(&before, &lab.outside(&["store"]));
    if !d.is_empty() {
        c.violate("outside-the-store", truncate(&d.join("\n"), 1500));
    }
    // and in the end, every entry still is what it was
    let files = KVFileStore::new(&base.join("f")).unwrap();
    for (h, id) in &known {
        let mut v = vec![];
        if let Some(mut f) = files.get(h) {
            let _ = f.read_to_end(&mut v);
            if which(&v) != Ok(*id) {
                c.violate("entry-shared", format!("{h:?} holds {:?}, expected {id}", which(&v)));
            }
        }
        c.count("entries re-read at the end", 1);
    }
}

/// The same from real index pages through PackageDB.
fn pages(c: &mut Ctx) {
    let wheel = crate::arch::wheel_bytes("foo", "1.0", "", &[crate::arch::M::file("foo.py", "x = 1")]);
    let good = sha256_hex(&wheel);
    let page: Arc<Mutex<String>> = Default::default();
    let (p2, w2) = (page.clone(), wheel.clone());
    let srv = Server::start(Arc::new(move |r: &Req| match r.path() {
        "/simple/foo/" => Act::Reply(Reply::html(p2.lock().unwrap().as_bytes())),
        p if p.ends_with(".whl") => Act::Reply(Reply::new(200, &w2)),
        _ => Act::Reply(Reply::new(404, "")),
    }));
    let lab = Lab::new();
    let forest = EnvForest::new(&lab.work.join("store/forest")).unwrap();
    let build = KVDirStore::new(&lab.work.join("store/build")).unwrap();
    let foo: PackageName = "foo".try_into().unwrap();
    let v1: Version = "1.0".try_into().unwrap();
    let mut before = lab.outside(&["store"]);
    for i in 0..c.n(700, 8000) {
        let rng = fastrand::Rng::with_seed(c.rng.u64(..));
        let mode = gen_mode(&rng, lab.outer.path());
        let hex = gen_hex(&rng, &good);
        let frag = match rng.u8(0..12) {
            0 => "".to_string(),
            1 => "#".into(),
            2 => format!("#{mode}"),
            3 => format!("#{mode}={hex}#{mode}={hex}"),
            4 => format!("#{mode}&egg=x"),
            _ => format!("#{mode}={hex}"),
        };
        let frag = frag.replace('&', "&amp;").replace('"', "&quot;").replace('<', "&lt;");
        let meta = if rng.bool() { format!(r#" data-dist-info-metadata="{}""#, &frag.trim_start_matches('#')) } else { String::new() };
        *page.lock().unwrap() = format!(r#"<!DOCTYPE html><html><body><a href="/f/foo-1.0-py3-none-any.whl{frag}"{meta}>foo</a></body></html>"#);
        // one cache for all, now and then a new one
        let cache = lab.work.join(format!("store/cache{}", i / 100));
        let what = format!("fragment {frag:?}");
        let r = run(|| -> eyre::Result<(Option<ArtifactHash>, Out<Vec<u8>>, Out<()>)> {
            let db = PackageDB::new(&[srv.url("/simple/").as_str().try_into()?], &cache, &forest, &build)?;
            let ais = db.artifacts_for_version(&foo, &v1)?;
            let ai = ais.first().ok_or(eyre::eyre!("LINK LOST"))?;
            let m = run(|| db.get_metadata::<Wheel, _>(&[ai], None).map(|_| ()));
            let a = run(|| {
                let w: Wheel = db.get_artifact(ai)?;
                Ok::<_, eyre::Report>(w.metadata()?.0)
            });
            Ok((ai.hash.clone(), a, m))
        });
        c.case(("page", &frag), true);
        match r {
            Out::Ok((hash, a, m)) => {
                if let Some(p) = [a.kind(), m.kind()].iter().position(|k| *k == "panic") {
                    c.violate("page-panic", format!("{what}: {}", if p == 0 { a.describe() } else { m.describe() }));
                }
                match (&hash, &a) {
                    (Some(h), Out::Ok(_)) => {
                        if h.mode != "sha256" || h.raw_data.iter().map(|b| format!("{b:02x}")).collect::<String>() != good {
                            c.violate("unverifiable-accepted", format!("{what}: content is accepted under {h:?}"));
                        }
                        c.count("verified downloads", 1);
                    }
                    (Some(_), Out::Err(_)) => c.count("downloads refused", 1),
                    (None, Out::Err(e)) => c.violate("link-unusable", format!("{what}: the hash was ignored, but {e}")),
                    (None, _) => c.count("fragments ignored", 1),
                    _ => {}
                }
                if mode == "sha256" && hex == good && frag.matches('=').count() == 1 && frag.matches('#').count() == 1 && !a.is_ok() {
                    c.violate("good-hash-refused", format!("{what}: {}", a.describe()));
                }
            }
            Out::Err(m) if m.contains("LINK LOST") => c.count("links ignored", 1),
            Out::Err(m) => c.violate("page-unusable", format!("{what}: {m}")),
            Out::Panic(m) => c.violate("page-panic", format!("{what}: {m}")),
        }
        let now = lab.outside(&["store"]);
        let d = diff(&before, &now);
        if !d.is_empty() {
            c.violate("outside-the-store", format!("{what}\n{}", truncate(&d.join("\n"), 1500)));
            before = now;
        }
        // by-hash holds nothing but the true file, where it belongs
        if i % 20 == 19 {
            for (p, n) in inventory(&cache.join("by-hash")) {
                match n {
                    Node::File { hash, len, .. } if len > 0 && hash != good => {
                        c.violate("unverifiable-accepted", format!("{what}: by-hash/{} holds {len} other bytes", p.display()))
                    }
                    _ => {}
                }
            }
        }
        if i % 150 == 7 {
            c.sample(json!({ "fragment": truncate(&frag, 200) }));
        }
    }
}

pub fn run_(mut c: Ctx) {
    c.rule = "distinct (algorithm name, digest) texts and page fragments".into();
    c.assumptions = vec!["the file system is case-sensitive".into()];
    direct(&mut c);
    pages(&mut c);
    c.finish()
}
