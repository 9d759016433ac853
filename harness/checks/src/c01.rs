//! C01: whatever an archive says, unpacking it stays inside the destination.
//!
//! Every archive is unpacked twelve directories deep inside a scratch directory whose other
//! parts ("canaries") must not change; the hostile names only reach for places in there.
//! The threads that unpack also give up root's rights over files.
use crate::arch::*;
use crate::common::*;
use crate::layout::*;
use posy::verif::*;
use std::collections::{BTreeMap, HashMap};
use std::io::Cursor;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};

const DEPTH: usize = 12;

struct Lab {
    outer: tempfile::TempDir,
    work: PathBuf,
    dest: PathBuf,
}

impl Lab {
    fn new() -> Lab {
        let outer = scratch();
        let mut work = outer.path().to_path_buf();
        for i in 0..DEPTH {
            std::fs::create_dir_all(work.join("canary")).unwrap();
            std::fs::write(work.join("canary/file"), "tweet").unwrap();
            work.push(format!("l{i}"));
        }
        for d in ["sibling", "a"] {
            std::fs::create_dir_all(work.join(d)).unwrap();
            std::fs::write(work.join(d).join("b"), d).unwrap();
        }
        let dest = work.join("dest");
        std::fs::create_dir_all(&dest).unwrap();
        let lab = Lab { outer, work, dest };
        give_away(lab.outer.path());
        lab
    }
    fn fresh(&self) {
        let _ = std::process::Command::new("chmod").arg("-R").arg("u+rwX").arg(&self.dest).status();
        let _ = std::fs::remove_dir_all(&self.dest);
        std::fs::create_dir(&self.dest).unwrap();
    }
    fn outside(&self) -> BTreeMap<PathBuf, Node> {
        let rel = self.dest.strip_prefix(self.outer.path()).unwrap().to_path_buf();
        // cheap inventory: skip the destination itself
        let mut out = BTreeMap::new();
        let mut todo = vec![PathBuf::new()];
        while let Some(r) = todo.pop() {
            if r == rel {
                continue;
            }
            let full = self.outer.path().join(&r);
            let Ok(md) = std::fs::symlink_metadata(&full) else { continue };
            use std::os::unix::fs::PermissionsExt;
            let mode = md.permissions().mode() & 0o7777;
            if md.file_type().is_symlink() {
                out.insert(r, Node::Link { target: std::fs::read_link(&full).unwrap_or_default() });
            } else if md.is_dir() {
                out.insert(r.clone(), Node::Dir { mode });
                for e in std::fs::read_dir(&full).into_iter().flatten().flatten() {
                    todo.push(r.join(e.file_name()));
                }
            } else if md.is_file() {
                let text = std::fs::read(&full).unwrap_or_default();
                out.insert(r, Node::File { mode, hash: format!("{:?} nlink {}", String::from_utf8_lossy(&text), md.nlink()), len: md.len() });
            } else {
                out.insert(r, Node::Other);
            }
        }
        out
    }
}

/// make a tree belong to the unprivileged user
pub fn give_away(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe { libc::lchown(c.as_ptr(), 65534, 65534) };
    if std::fs::symlink_metadata(p).map(|m| m.is_dir()).unwrap_or(false) {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            give_away(&e.path());
        }
    }
}

/// This thread's file accesses count as the unprivileged user's while this lives.
pub struct Humble;
impl Humble {
    pub fn new() -> Humble {
        unsafe {
            libc::setfsgid(65534);
            libc::setfsuid(65534);
        }
        Humble
    }
}
impl Drop for Humble {
    fn drop(&mut self) {
        unsafe {
            libc::setfsuid(0);
            libc::setfsgid(0);
        }
    }
}

/// Follow a path component by component as the kernel would; `Err(place)` as soon as it
/// leaves `root`.
fn leaves(root: &Path, from: &Path, target: &Path) -> Result<(), PathBuf> {
    use std::path::Component;
    let mut cur = from.to_path_buf();
    let mut todo: Vec<PathBuf> = target.components().rev().map(|c| PathBuf::from(c.as_os_str())).collect();
    let mut hops = 0;
    while let Some(c) = todo.pop() {
        match c.components().next() {
            Some(Component::RootDir) => cur = PathBuf::from("/"),
            Some(Component::ParentDir) => {
                cur.pop();
            }
            Some(Component::Normal(n)) => {
                let next = cur.join(n);
                match std::fs::read_link(&next) {
                    Ok(t) if hops < 80 => {
                        hops += 1;
                        todo.extend(t.components().rev().map(|c| PathBuf::from(c.as_os_str())));
                    }
                    _ => cur = next,
                }
            }
            _ => {}
        }
        if !cur.starts_with(root) {
            return Err(cur);
        }
    }
    Ok(())
}

fn gen_name(rng: &fastrand::Rng, outer: &Path, mild: bool) -> Vec<u8> {
    let piece = |rng: &fastrand::Rng| *pick(rng, &["a", "b", "c", "d", "a", "b", "canary", "file", "lib", "bin", "x.py", "sibling"]);
    let plain = |rng: &fastrand::Rng| (0..rng.usize(1..4)).map(|_| piece(rng)).collect::<Vec<_>>().join("/");
    let up = "../".repeat(rng.usize(1..DEPTH - 2));
    match rng.u8(0..if mild { 22 } else { 40 }) {
        0..=17 => plain(rng).into(),
        18 => format!("./{}", plain(rng)).into(),
        19 => format!("{}//{}", piece(rng), plain(rng)).into(),
        20 => format!("{}/../{}", piece(rng), plain(rng)).into(),
        21 => format!("{}/./../{}/..//{}", piece(rng), piece(rng), plain(rng)).into(),
        22 => format!("{up}canary/file").into(),
        23 => format!("{up}canary/new").into(),
        24 => format!("../{}", pick(rng, &["sibling/b", "sibling/new", "a/b", "new", "dest2", "dest/x"])).into(),
        25 => format!("{}/{}sibling/new", piece(rng), "../".repeat(2)).into(),
        26 => format!("{}/{}", outer.display(), pick(rng, &["canary/file", "canary/new", "new"])).into(),
        27 => format!("/{}/canary/new", outer.display()).into(),
        28 => format!("{}/{}", piece(rng), outer.join("canary/new").display()).into(),
        29 => (*pick(rng, &["..\\sibling\\new", "a\\..\\..\\x", "C:\\new", "C:new", "c:/new", "\\new", "\\\\server\\x", "a\\b", "..\\"])).into(),
        30 => (*pick(rng, &["", ".", "..", "./", "../", "/", "//", "a/..", "a/../..", "...", "a/...", ".../a", " ", "a /b", "a./b", ".. /x", "..\t/x"])).into(),
        31 => (*pick(rng, &["a\0b", "a\0/../../sibling/new", "../sibling/new\0", "\0", "a\nb", "a\x7f", "a\x1b[2J"])).into(),
        32 => pick(rng, &[&b"\xff\xfe"[..], b"a/\xff/b", b"\xc0\xae\xc0\xae/sibling/new", b"..\xc0\xafsibling/new", b"\xef\xbc\x8e\xef\xbc\x8e/sibling/new"]).to_vec(),
        33 => (*pick(rng, &["é/ü", "\u{202e}x", "．．/sibling/new", "%2e%2e/sibling/new", "~/x", "$HOME", "con", "nul.txt", "a:b", "a*", "a?b", "<a>", "a|b", "\"a\""])).into(),
        34 => "n".repeat(*pick(rng, &[99, 100, 101, 155, 255, 256, 300])).into_bytes(),
        35 => "a/".repeat(*pick(rng, &[60, 200])).into_bytes(),
        36 => format!("{}/", plain(rng)).into(),
        37 => format!("{}/..", plain(rng)).into(),
        38 => format!("{}/.", plain(rng)).into(),
        _ => (0..rng.usize(1..10)).map(|_| *pick(rng, b"../ab\\")).collect(),
    }
}

fn gen_target(rng: &fastrand::Rng, outer: &Path, source: &[u8], mild: bool) -> Vec<u8> {
    let depth = norm(source).map(|p| p.len()).unwrap_or(1);
    let piece = |rng: &fastrand::Rng| *pick(rng, &["a", "b", "c", "d", "canary", "x.py"]);
    let ups = |n: usize| vec![".."; n].join("/");
    match rng.u8(0..if mild { 11 } else { 26 }) {
        0..=3 => piece(rng).into(),
        4 => format!("{}/{}", piece(rng), ups(depth)).into(),
        5 => format!("{}/{}/{}", piece(rng), piece(rng), ups(depth)).into(),
        6 => ups(depth.saturating_sub(1)).into(),
        25 | 24 => format!("{}/{}", piece(rng), piece(rng)).into(),
        // as far up as is allowed, and one further
        7..=9 => format!("{}/{}", ups(depth.saturating_sub(1)), piece(rng)).trim_start_matches('/').into(),
        10 => format!("./{}", piece(rng)).into(),
        11 => format!("{}/{}", ups(depth), pick(rng, &["sibling", "a", "dest", "sibling/b", "canary"])).into(),
        12 => format!("{}/{}", ups(depth + rng.usize(0..DEPTH - 2)), "canary").into(),
        13 => ups(rng.usize(1..4)).into(),
        // detours
        14 => format!("{}/../{}/{}", piece(rng), ups(depth), "sibling").into(),
        15 => format!("{}/../{}/{}", piece(rng), ups(depth.saturating_sub(1)), piece(rng)).into(),
        16 => format!("{}/{}/sibling", ups(depth.saturating_sub(1)), format!("{}/../..", piece(rng))).into(),
        17 => outer.join("canary").display().to_string().into(),
        18 => outer.join("canary/file").display().to_string().into(),
        19 => (*pick(rng, &["", ".", "/", "./", "..", "a\0/../..", "\0", "..\\..", "a\\b", "C:\\"])).into(),
        20 => b"\xff".to_vec(),
        21 => "t".repeat(*pick(rng, &[99, 100, 101, 200, 255, 5000])).into_bytes(),
        22 => source.rsplit(|b| *b == b'/').next().unwrap_or(b"a").to_vec(), // itself
        _ => (0..rng.usize(1..10)).map(|_| *pick(rng, b"../ab")).collect(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kind {
    Pybi,
    Wheel,
    SdistZip,
    SdistTar,
}

fn gen_members(rng: &fastrand::Rng, kind: Kind, outer: &Path) -> Vec<M> {
    let mild = chance(rng, 65);
    let n = rng.usize(1..9);
    let tar = kind == Kind::SdistTar;
    let mut v: Vec<M> = vec![];
    for i in 0..n {
        let mut name = gen_name(rng, outer, mild);
        if kind == Kind::Wheel && chance(rng, 40) {
            let cat = *pick(rng, &["scripts", "data", "purelib", "platlib", "headers", "nonsense", ".."]);
            let mut p = format!("foo-1.0.data/{cat}/").into_bytes();
            p.append(&mut name);
            name = p;
        }
        // collide with what is there already
        if chance(rng, if mild { 5 } else { 20 }) && !v.is_empty() {
            let o = pick(rng, &v).name.clone();
            name = match rng.u8(0..5) {
                0 => o,
                1 => [b"./", &o[..]].concat(),
                2 => [&o[..], b"/z"].concat(),
                3 => o.split(|b| *b == b'/').next().unwrap().to_vec(),
                _ => [&o[..], b"/../", o.rsplit(|b| *b == b'/').next().unwrap()].concat(),
            };
        }
        let body = format!("tag {i} {}", if chance(rng, 20) { "#".repeat(3000) } else { String::new() });
        let mut m = M::file("x", body);
        m.name = name;
        m.utf8 = std::str::from_utf8(&m.name).map(|s| !s.is_ascii()).unwrap_or(false);
        m.deflate = rng.bool();
        match rng.u8(0..20) {
            0..=8 => {}
            13..=17 if tar && mild => {}
            9 => m.mode = *pick(rng, &[0o755, 0o4755, 0o2755, 0o7777, 0, 0o200, 0o444]),
            10 | 11 => {
                m.kind = K::Dir;
                m.data.clear();
                if !tar || rng.bool() {
                    m.name.push(b'/');
                }
            }
            12 => {
                // a name that says directory, with contents
                m.name.push(b'/');
            }
            13..=17 => {
                m.kind = K::Symlink;
                m.data = gen_target(rng, outer, &m.name, mild);
                m.deflate = false;
            }
            18 if tar && !mild => {
                m.kind = if rng.bool() { K::Hardlink } else { pick(rng, &[K::Char, K::Block, K::Fifo]).clone() };
                m.data = gen_target(rng, outer, &m.name, mild);
            }
            19 if tar && !mild => m.kind = K::Raw(*pick(rng, b"S7VMND\0\xffz")),
            _ => {
                m.kind = pick(rng, &[K::Char, K::Block, K::Fifo, K::File]).clone();
            }
        }
        if m.name.len() > 60000 {
            m.name.truncate(1000);
        }
        v.push(m);
    }
    if chance(rng, 15) {
        // a pair or chain of links that conspire
        let s = |n: &str, t: String| M::link(n, &t);
        match rng.u8(0..6) {
            0 => {
                v.push(s("link", "a".into()));
                v.push(M::file("link/b", "tag 100 "));
            }
            1 => {
                v.push(s("p", "..".into()));
                v.push(M::file("p/sibling/new", "tag 100 "));
            }
            2 => {
                v.push(s("d/e/up", "../..".into()));
                v.push(s("out", "d/e/up/../sibling".into()));
            }
            3 => {
                v.push(s("d/up", "..".into()));
                v.push(s("d/up/x", "..".into()));
                v.push(s("q", "d/up/x/..".into()));
            }
            4 => {
                v.push(s("abs", outer.join("canary").display().to_string()));
                v.push(M::file("abs/new", "tag 100 "));
                v.push(M::dir("abs/newdir/"));
            }
            _ => {
                v.push(s("f", "../sibling/b".into()));
                v.push(M::file("f", "tag 100 "));
            }
        }
        if rng.bool() {
            rng.shuffle(&mut v);
        }
    }
    v
}

/// what an archive's tar pax headers can do: another name, another link target
fn tar_with_pax(rng: &fastrand::Rng, members: &[M], outer: &Path) -> Vec<u8> {
    let mild = false;
    let mut v = vec![];
    for m in members {
        if chance(rng, 30) {
            let mut body = vec![];
            let mut rec = |k: &str, val: &[u8]| {
                let mut n = k.len() + val.len() + 3;
                n += n.to_string().len();
                let mut r = format!("{n} {k}=").into_bytes();
                r.extend(val);
                r.push(b'\n');
                body.extend(r);
            };
            if rng.bool() {
                rec("path", &gen_name(rng, outer, mild));
            }
            if rng.bool() {
                rec("linkpath", &gen_target(rng, outer, &m.name, mild));
            }
            if chance(rng, 10) {
                rec("size", b"7");
            }
            let mut h = M::file("PaxHeader", body);
            h.kind = K::Raw(*pick(rng, b"xxxg"));
            v.push(h);
        }
        if chance(rng, 4) {
            let mut h = M::file("././@LongLink", gen_name(rng, outer, mild));
            h.kind = K::Raw(*pick(rng, b"LK"));
            v.push(h);
        }
        v.push(m.clone());
    }
    tar_bytes(&v)
}

fn wheel_dirs() -> HashMap<String, String> {
    [("scripts", "bin"), ("purelib", "lib"), ("platlib", "lib"), ("data", ".")]
        .into_iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

fn unpack(kind: Kind, bytes: Vec<u8>, dest: &Path) -> eyre::Result<()> {
    let f = Box::new(Cursor::new(bytes));
    match kind {
        Kind::Pybi => Pybi::new("foo-1.0-linux_x86_64.pybi".try_into()?, f)?.unpack(&mut WriteTreeFS::new(dest)),
        Kind::SdistZip => Sdist::new("foo-1.0.zip".try_into()?, f)?.unpack(&mut WriteTreeFS::new(dest)),
        Kind::SdistTar => Sdist::new("foo-1.0.tar.gz".try_into()?, f)?.unpack(&mut WriteTreeFS::new(dest)),
        Kind::Wheel => {
            let mut paths = HashMap::new();
            for (k, v) in wheel_dirs() {
                paths.insert(k, NicePathBuf::try_from(v.as_str())?);
            }
            Wheel::new("foo-1.0-py3-none-any.whl".try_into()?, f)?.unpack(
                &paths,
                &TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both),
                WriteTreeFS::new(dest),
            )
        }
    }
}

/// Clear breaches, for which an error is due. Only members whose meaning is beyond doubt
/// count (no pax overrides, no odd types).
fn breaches(kind: Kind, members: &[M]) -> Vec<String> {
    let tar = kind == Kind::SdistTar;
    let place = |m: &M| -> Option<Vec<Vec<u8>>> {
        let p = norm(&m.name)?;
        match kind {
            Kind::Wheel => wheel_place(&p, "foo-1.0.data", true, &wheel_dirs()).map(|x| x.0),
            _ => Some(p),
        }
    };
    let mut out = vec![];
    let mut taken: HashMap<Vec<Vec<u8>>, usize> = HashMap::new();
    for (i, m) in members.iter().enumerate() {
        if tar && m.name.contains(&0) {
            continue; // the name ends at the NUL
        }
        let is_dir = m.kind == K::Dir || m.name.ends_with(b"/");
        match m.kind {
            K::File | K::Dir | K::Symlink => {}
            K::Hardlink if !link_inside(&[vec![b'x']], &m.data) => {
                out.push(format!("member {i} is a hard link to outside"));
                continue;
            }
            K::Char | K::Block | K::Fifo if tar => {
                out.push(format!("member {i} is a device or pipe"));
                continue;
            }
            _ => continue,
        }
        match norm(&m.name) {
            None => {
                out.push(format!("member {i} has the name {:?}", String::from_utf8_lossy(&m.name)));
                continue;
            }
            Some(p) => {
                if m.kind == K::Symlink && !link_inside(&p, &m.data) && !(tar && m.data.contains(&0)) {
                    out.push(format!("member {i} links to {:?}", String::from_utf8_lossy(&m.data)));
                }
            }
        }
        if is_dir || (m.kind == K::Symlink && kind == Kind::Wheel) {
            continue;
        }
        if let Some(p) = place(m) {
            if let Some(j) = taken.insert(p.clone(), i) {
                out.push(format!("members {j} and {i} are both {:?}", String::from_utf8_lossy(&join(&p))));
            }
        }
    }
    let all: Vec<_> = taken.iter().map(|(p, i)| (p.clone(), *i)).collect();
    for (p, i) in &all {
        for (q, j) in &all {
            // (a link where a directory has to be counts just the same)
            if q.len() > p.len() && q.starts_with(p) {
                out.push(format!("member {i} is in the way of member {j}"));
            }
        }
    }
    out
}

fn describe(kind: Kind, members: &[M]) -> String {
    let mut s = format!("{kind:?} with\n");
    for (i, m) in members.iter().enumerate() {
        s += &format!("  {i}: {:?} {:?} mode {:o}", m.kind, String::from_utf8_lossy(&m.name), m.mode);
        if m.kind != K::File && !m.data.is_empty() {
            s += &format!(" -> {:?}", truncate(&String::from_utf8_lossy(&m.data), 200));
        }
        s += "\n";
    }
    s
}

fn one(p: &mut Part, lab: &Lab, before: &mut BTreeMap<PathBuf, Node>) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let kind = *pick(&rng, &[Kind::Pybi, Kind::Wheel, Kind::SdistZip, Kind::SdistTar, Kind::SdistTar]);
    let mut members = gen_members(&rng, kind, lab.outer.path());
    let mut entry_names = vec![];
    if kind == Kind::Wheel {
        let mut eps = String::from("[console_scripts]\n");
        for _ in 0..rng.usize(0..3) {
            let n = String::from_utf8_lossy(&gen_name(&rng, lab.outer.path(), rng.bool())).replace(['\n', '='], "");
            let n = if chance(&rng, 30) { format!("../../{n}") } else { n };
            eps += &format!("{n} = mod:func\n");
            entry_names.push(n);
        }
        let mut extra = members.clone();
        if !entry_names.is_empty() {
            extra.push(M::file("foo-1.0.dist-info/entry_points.txt", &eps));
        }
        members = wheel_members("foo", "1.0", "", &extra);
    }
    let mut exact = true;
    let mut bytes = match kind {
        Kind::SdistTar if chance(&rng, 30) => {
            exact = false;
            gz(&tar_with_pax(&rng, &members, lab.outer.path()))
        }
        Kind::SdistTar => targz_bytes(&members),
        _ => zip_bytes(&members),
    };
    // damaged archives (without absolute names, so that damage cannot aim elsewhere)
    if chance(&rng, 12) && !members.iter().any(|m| m.name.starts_with(b"/") || m.data.starts_with(b"/")) {
        exact = false;
        let raw = kind == Kind::SdistTar;
        let mut b = if raw { tar_bytes(&members) } else { bytes };
        for _ in 0..rng.usize(1..6) {
            match rng.u8(0..3) {
                0 if b.len() > 30 => {
                    let n = rng.usize(0..b.len());
                    b.truncate(n.max(20));
                }
                _ => {
                    let i = rng.usize(0..b.len());
                    b[i] = *pick(&rng, &[0, 1, 0xff, b'/', b'.', b'a', b[i] ^ 1, b[i] ^ 0x80]);
                }
            }
        }
        bytes = if raw { gz(&b) } else { b };
        p.count("damaged archives", 1);
    }
    let what = || format!("{}entry points {entry_names:?}", describe(kind, &members));
    p.begin(&truncate(&what(), 600));
    lab.fresh();
    let out = run(|| unpack(kind, bytes.clone(), &lab.dest));
    p.end();
    let breach = if exact { breaches(kind, &members) } else { vec![] };
    let nasty = !breach.is_empty() || members.iter().any(|m| m.kind == K::Symlink) || !exact;
    p.case((kind, &members, exact), nasty);
    p.count(if out.is_ok() { "unpacked" } else { "refused" }, 1);
    if !breach.is_empty() {
        p.count("archives that break the rules", 1);
    }
    match &out {
        Out::Panic(m) => p.violate("panic", format!("{m}\n{}", what())),
        Out::Ok(()) if !breach.is_empty() => {
            p.violate("breach-accepted", format!("{}\nunpacked without an error\n{}", breach.join("; "), what()))
        }
        _ => {}
    }
    // nothing outside has changed
    let now = lab.outside();
    if &now != before {
        let d: Vec<String> = now
            .iter()
            .filter(|(k, v)| before.get(*k) != Some(v))
            .map(|(k, v)| format!("+{} {v:?}", k.display()))
            .chain(before.keys().filter(|k| !now.contains_key(*k)).map(|k| format!("-{}", k.display())))
            .collect();
        p.violate("outside-touched", format!("{}\n{}", truncate(&d.join("\n"), 1500), what()));
        *before = now;
    }
    // what was left inside
    let mut earlier: HashMap<PathBuf, usize> = HashMap::new();
    let mut todo = vec![lab.dest.clone()];
    let mut links = 0;
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let full = e.path();
            let Ok(md) = std::fs::symlink_metadata(&full) else { continue };
            if md.file_type().is_symlink() {
                links += 1;
                let t = std::fs::read_link(&full).unwrap_or_default();
                if let Err(place) = leaves(&lab.dest, &d, &t) {
                    p.violate(
                        "link-escapes",
                        format!("{} -> {} leads to {}\n{}", full.display(), t.display(), place.display(), what()),
                    );
                }
            } else if md.is_dir() {
                todo.push(full);
            } else if md.is_file() {
                if md.nlink() != 1 {
                    // a second name is fine only if all its names are in here
                    earlier.insert(full.clone(), usize::MAX);
                    if before.values().any(|n| matches!(n, Node::File { hash, .. } if hash.contains(&format!("nlink {}", md.nlink())))) {
                        p.violate("hard-link", format!("{} has {} names\n{}", full.display(), md.nlink(), what()));
                    }
                }
                if exact {
                    let text = std::fs::read(&full).unwrap_or_default();
                    let tag = std::str::from_utf8(&text).ok().and_then(|t| t.strip_prefix("tag ")?.split(' ').next()?.parse::<usize>().ok());
                    if let Some(t) = tag {
                        let mine = members.iter().position(|m| m.data.starts_with(format!("tag {t} ").as_bytes()));
                        if let Some(i) = mine {
                            let rel = full.strip_prefix(&lab.dest).unwrap().as_os_str().as_bytes();
                            let at = |m: &M| -> Option<Vec<u8>> {
                                let name = if kind == Kind::SdistTar { m.name.split(|b| *b == 0).next().unwrap() } else { &m.name };
                                let q = norm(name)?;
                                match kind {
                                    Kind::Wheel => wheel_place(&q, "foo-1.0.data", true, &wheel_dirs()).map(|x| join(&x.0)),
                                    _ => Some(join(&q)),
                                }
                            };
                            let before_me = members[..i].iter().any(|m| {
                                matches!(m.kind, K::File) && !m.name.ends_with(b"/") && at(m).as_deref() == Some(rel)
                            });
                            if before_me {
                                p.violate("overwritten", format!("{} now holds the contents of member {i}\n{}", full.display(), what()));
                            }
                            let utf8 = std::str::from_utf8(&members[i].name).is_ok() || kind == Kind::SdistTar;
                            if utf8 && at(&members[i]).as_deref() != Some(rel) {
                                p.violate("misplaced", format!("{} holds the contents of member {i}\n{}", full.display(), what()));
                            }
                        }
                    }
                }
            } else {
                p.violate("special-file", format!("{} is {:?}\n{}", full.display(), md.file_type(), what()));
            }
        }
    }
    p.count("links left behind, all followed to their end", links);
    if p.rng.u32(0..400) == 0 {
        p.sample(serde_json::json!({"kind": format!("{kind:?}"), "members": members.len(), "breaches": breach, "outcome": out.describe()}));
    }
}

pub fn run_(mut c: Ctx) {
    c.rule = "an archive that breaks the rules, contains links, or is damaged".into();
    c.assumptions = vec![
        "the file system's own rules (a POSIX file system; Windows path semantics are not exercised)".into(),
        "hostile names reach for places inside the scratch directory only".into(),
    ];
    parallel(&mut c, 8, 30, 420, |p| {
        let lab = Lab::new();
        let mut before = lab.outside();
        let _h = Humble::new();
        while p.within() {
            one(p, &lab, &mut before);
        }
    });
    c.finish()
}
