//! C02: unpacking reproduces a well-formed archive exactly, in the right layout.
//!
//! A model of a directory tree is written as many different archives (order, compression,
//! explicit directory members, our own writers and those of Python and GNU tar); whatever
//! posy unpacks is compared node by node with the model.
use crate::arch::*;
use crate::pep440;
use crate::common::*;
use crate::layout::*;
use posy::verif::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Cursor, Read};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Want {
    File(Vec<u8>, bool),
    /// lexically normalised target
    Link(Vec<u8>),
    /// a launcher for this script text (without its first line); gui or not
    Launcher(Vec<u8>, bool),
    /// a launcher for an entry point
    Entry(bool),
    /// a Windows launcher
    Exe,
}

type Tree = BTreeMap<Vec<Vec<u8>>, Want>;

fn gen_piece(rng: &fastrand::Rng) -> String {
    match rng.u8(0..14) {
        0..=6 => (*pick(rng, &["a", "b", "c", "pkg", "mod.py", "__init__.py", "data", "lib", "bin", "x-1.0", "README"])).into(),
        7 => (*pick(rng, &["é", "файл.txt", "日本", "a b", "a  b", "a'b", "a;b", "a&b", "a=b", "a#b", "a%41b", "{a}", "~a", "-a", "@a", "$a", "a,b", "a+b", "[a]", "(a)", "!a", "`a`"])).into(),
        8 => (*pick(rng, &[".a", "..a", "a..b", "...b", ".gitignore", "__pycache__", "a.cpython-311-x86_64-linux-gnu.so"])).into(),
        9 => "n".repeat(*pick(rng, &[20, 50, 90, 99, 100, 101, 120, 200])),
        _ => (0..rng.usize(1..9)).map(|_| rng.lowercase()).collect(),
    }
}

fn gen_body(rng: &fastrand::Rng) -> Vec<u8> {
    let n = match rng.u8(0..20) {
        0 | 1 => 0,
        2..=14 => rng.usize(1..200),
        15 => *pick(rng, &[511, 512, 513, 1024, 8191, 8192, 8193, 32768, 32769]),
        16 => rng.usize(1000..120_000),
        _ => rng.usize(200..5000),
    };
    let text = rng.bool();
    (0..n).map(|_| if text { *pick(rng, b"abc \n\r\n#!") } else { rng.u8(..) }).collect()
}

/// can this path be added without clashing?
fn room(tree: &Tree, p: &[Vec<u8>]) -> bool {
    !p.is_empty()
        && !tree.contains_key(p)
        && (1..p.len()).all(|n| !tree.contains_key(&p[..n]))
        && !tree.range(p.to_vec()..).next().map(|(k, _)| k.starts_with(p)).unwrap_or(false)
}

/// the same tree as members, in some order and style
fn lexical(source: &[Vec<u8>], target: &[u8]) -> Vec<Vec<u8>> {
    let _ = source;
    let mut out: Vec<Vec<u8>> = vec![];
    for p in target.split(|b| *b == b'/') {
        match p {
            b"" | b"." => {}
            b".." => match out.last() {
                None => out.push(p.to_vec()),
                Some(l) if l == b".." => out.push(p.to_vec()),
                _ => {
                    out.pop();
                }
            },
            p => out.push(p.to_vec()),
        }
    }
    out
}

struct Style {
    host: u8,
    tar: bool,
    prefix_dot: bool,
    roundabout: bool,
    dirs: u8,
    label: String,
}

fn gen_style(rng: &fastrand::Rng, tar: bool) -> Style {
    let host = if !tar && chance(rng, 15) { 0 } else { 3 };
    let prefix_dot = tar && chance(rng, 15);
    let roundabout = tar && chance(rng, 10);
    let dirs = rng.u8(0..6);
    Style { host, tar, prefix_dot, roundabout, dirs, label: format!("host {host} dot {prefix_dot} roundabout {roundabout} dirs {dirs}") }
}

/// Put directory members in (if the style wants them) and order everything.
fn arrange(rng: &fastrand::Rng, st: &Style, mut files: Vec<M>, empty_dirs: &[Vec<Vec<u8>>]) -> Vec<M> {
    let mut dirs: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    for m in &files {
        let p = norm(&m.name).unwrap();
        for n in 1..p.len() {
            dirs.insert(p[..n].to_vec());
        }
    }
    let dm = |p: &[Vec<u8>]| {
        let mut m = M::dir("x/");
        m.name = join(p);
        m.name.push(b'/');
        m.utf8 = !m.name.is_ascii();
        m.host = st.host;
        m
    };
    for d in empty_dirs {
        for n in 1..d.len() {
            dirs.insert(d[..n].to_vec());
        }
    }
    let mut empties: Vec<M> = empty_dirs.iter().map(|d| dm(d)).collect();
    let mut ds: Vec<M> = dirs.iter().map(|d| dm(d)).collect();
    if chance(rng, 70) {
        rng.shuffle(&mut files);
    }
    let mut v = match st.dirs {
        // none but the empty ones
        0 | 1 => {
            let mut v = files;
            for e in empties {
                let at = rng.usize(0..v.len() + 1);
                v.insert(at, e);
            }
            v
        }
        // all, parents first
        2 => {
            ds.append(&mut empties);
            ds.sort_by(|a, b| a.name.cmp(&b.name));
            ds.extend(files);
            ds
        }
        // all, at the end
        3 => {
            let mut v = files;
            v.append(&mut ds);
            v.append(&mut empties);
            v
        }
        // some, anywhere
        4 => {
            let mut v = files;
            v.append(&mut empties);
            v.extend(ds.into_iter().filter(|_| rng.bool()));
            rng.shuffle(&mut v);
            v
        }
        // depth first, as an archiver that walks the tree would
        _ => {
            let mut v = files;
            v.append(&mut ds);
            v.append(&mut empties);
            v.sort_by(|a, b| a.name.cmp(&b.name));
            v
        }
    };
    if st.tar && chance(rng, 10) {
        // the same directory announced again
        if let Some(d) = v.iter().find(|m| m.kind == K::Dir).cloned() {
            v.push(d);
        }
    }
    if st.roundabout {
        for m in v.iter_mut().filter(|_| chance(rng, 30)) {
            let (a, b) = match m.name.iter().position(|c| *c == b'/') {
                Some(i) if rng.bool() => m.name.split_at(i + 1),
                _ => (&b""[..], &m.name[..]),
            };
            m.name = [a, pick(rng, &["x/../", "x/y/../../", "./", "x/./../"]).as_bytes(), b].concat();
        }
    }
    if st.prefix_dot {
        for m in &mut v {
            m.name = [b"./", &m.name[..]].concat();
        }
        let mut d = M::dir("./");
        d.utf8 = false;
        v.insert(0, d);
    }
    v
}

fn files_of(rng: &fastrand::Rng, st: &Style, tree: &Tree) -> Vec<M> {
    tree.iter()
        .filter_map(|(p, w)| {
            let mut m = match w {
                Want::File(d, x) => M::file("x", d).mode(if *x { *pick(rng, &[0o755, 0o700, 0o775, 0o555]) } else { *pick(rng, &[0o644, 0o600, 0o664, 0o444]) }),
                Want::Link(t) => {
                    let mut m = M::link("x", "");
                    m.data = t.clone();
                    m
                }
                _ => return None,
            };
            m.name = join(p);
            m.utf8 = !m.name.is_ascii();
            m.deflate = m.kind == K::File && rng.bool();
            m.host = st.host;
            Some(m)
        })
        .collect()
}

fn dirs_of<'a>(places: impl Iterator<Item = &'a Vec<Vec<u8>>>) -> BTreeSet<Vec<Vec<u8>>> {
    let mut d = BTreeSet::new();
    for p in places {
        for n in 1..p.len() {
            d.insert(p[..n].to_vec());
        }
    }
    d
}

/// Compare what is on disk with what is wanted. `links_matter`: compare normalised targets.
fn compare(dest: &Path, want: &Tree, dirs: &BTreeSet<Vec<Vec<u8>>>, loose_dirs: bool) -> Vec<String> {
    let mut bad = vec![];
    let have = inventory(dest);
    let mut seen = BTreeSet::new();
    for (rel, node) in &have {
        if rel.as_os_str().is_empty() {
            continue;
        }
        let p: Vec<Vec<u8>> = rel.components().map(|c| c.as_os_str().as_bytes().to_vec()).collect();
        let show = rel.display().to_string();
        match node {
            Node::Dir { .. } => {
                if !dirs.contains(&p) && !loose_dirs {
                    bad.push(format!("unexpected directory {show}"));
                }
            }
            _ => {
                seen.insert(p.clone());
                match (want.get(&p), node) {
                    (None, _) => bad.push(format!("unexpected {show}: {node:?}")),
                    (Some(Want::File(d, x)), Node::File { mode, hash, len }) => {
                        if *len != d.len() as u64 || *hash != sha256_hex(d) {
                            bad.push(format!("{show} has other contents ({len} bytes, expected {})", d.len()));
                        }
                        if (mode & 0o100 != 0) != *x {
                            bad.push(format!("{show} has mode {mode:o}, executable expected: {x}"));
                        }
                        if mode & 0o400 == 0 {
                            bad.push(format!("{show} is not readable: {mode:o}"));
                        }
                    }
                    (Some(Want::Link(t)), Node::Link { target }) => {
                        if lexical(&p, target.as_os_str().as_bytes()) != lexical(&p, t) {
                            bad.push(format!("{show} -> {target:?}, expected {:?}", String::from_utf8_lossy(t)));
                        }
                    }
                    (Some(Want::Launcher(body, _)), Node::File { mode, .. }) => {
                        let text = std::fs::read(dest.join(rel)).unwrap_or_default();
                        if mode & 0o111 != 0o111 & !umask() || !text.ends_with(body) || text.starts_with(b"#!python") {
                            bad.push(format!("{show} is no launcher for its script (mode {mode:o}, {:?})", String::from_utf8_lossy(&text[..text.len().min(200)])));
                        }
                    }
                    (Some(Want::Entry(_)), Node::File { mode, .. }) | (Some(Want::Exe), Node::File { mode, .. }) => {
                        if mode & 0o100 == 0 {
                            bad.push(format!("{show} is not executable: {mode:o}"));
                        }
                    }
                    (Some(w), n) => bad.push(format!("{show} is {n:?}, expected {w:?}")),
                }
            }
        }
    }
    for p in want.keys() {
        if !seen.contains(p) {
            bad.push(format!("{:?} is missing", String::from_utf8_lossy(&join(p))));
        }
    }
    for d in dirs {
        let p = PathBuf::from(std::ffi::OsString::from_vec(join(d)));
        if !matches!(have.get(&p), Some(Node::Dir { .. })) {
            bad.push(format!("directory {} is missing", p.display()));
        }
    }
    bad.truncate(12);
    bad
}

fn umask() -> u32 {
    0o022
}

// ------------------------------------------------------------------ pybis and sdists

fn gen_tree(rng: &fastrand::Rng, links: bool) -> (Tree, Vec<Vec<Vec<u8>>>) {
    let mut tree = Tree::new();
    let bases: Vec<Vec<Vec<u8>>> = (0..rng.usize(1..5))
        .map(|_| (0..rng.usize(0..4)).map(|_| gen_piece(rng).into_bytes()).collect())
        .collect();
    let fresh = |rng: &fastrand::Rng| {
        let mut p = pick(rng, &bases).clone();
        p.push(gen_piece(rng).into_bytes());
        p
    };
    for _ in 0..rng.usize(1..14) {
        let p = fresh(rng);
        if room(&tree, &p) {
            tree.insert(p, Want::File(gen_body(rng), chance(rng, 30)));
        }
    }
    if links {
        for _ in 0..rng.usize(0..5) {
            let p = fresh(rng);
            if !room(&tree, &p) {
                continue;
            }
            // to some member, some directory, or to nothing in particular, but inside
            let keys: Vec<_> = tree.keys().cloned().collect();
            let mut goal = pick(rng, &keys).clone();
            if chance(rng, 30) {
                goal.pop();
            }
            if chance(rng, 20) {
                goal.push(gen_piece(rng).into_bytes());
            }
            let dir = &p[..p.len() - 1];
            let common = dir.iter().zip(&goal).take_while(|(a, b)| a == b).count();
            let common = rng.usize(0..common + 1);
            let mut t: Vec<Vec<u8>> = vec![b"..".to_vec(); dir.len() - common];
            t.extend(goal[common..].iter().cloned());
            let mut text = join(&t);
            match rng.u8(0..6) {
                0 => text = [b"./", &text[..]].concat(),
                1 => text = [&text[..], b"/."].concat(),
                2 => text = [&text[..], b"/a/.."].concat(),
                _ => {}
            }
            if text.is_empty() || text == b"/." || text.starts_with(b"/") {
                text = b".".to_vec();
            }
            if text.len() > 3000 || !link_inside(&p, &text) {
                continue;
            }
            tree.insert(p, Want::Link(text));
        }
    }
    let mut empty = vec![];
    for _ in 0..rng.usize(0..3) {
        let p = fresh(rng);
        if room(&tree, &p) && !empty.contains(&p) {
            empty.push(p);
        }
    }
    // an empty directory must really be one
    empty.retain(|e| !tree.keys().any(|k| k.starts_with(e)));
    (tree, empty)
}

fn dirs_wanted(tree: &Tree, empty: &[Vec<Vec<u8>>]) -> BTreeSet<Vec<Vec<u8>>> {
    let mut d = dirs_of(tree.keys().chain(empty));
    d.extend(empty.iter().cloned());
    d
}

fn unpack_plain(kind: &str, bytes: Vec<u8>, dest: &Path) -> Out<()> {
    let f = Box::new(Cursor::new(bytes));
    run(|| match kind {
        "pybi" => Pybi::new("foo-1.0-linux_x86_64.pybi".try_into()?, f)?.unpack(&mut WriteTreeFS::new(dest)),
        "zip" => Sdist::new("foo-1.0.zip".try_into()?, f)?.unpack(&mut WriteTreeFS::new(dest)),
        _ => Sdist::new("foo-1.0.tar.gz".try_into()?, f)?.unpack(&mut WriteTreeFS::new(dest)),
    })
}

fn fresh_dir() -> tempfile::TempDir {
    scratch()
}

fn plain(p: &mut Part) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let kind = *pick(&rng, &["pybi", "zip", "tar"]);
    let tar = kind == "tar";
    let (tree, empty) = gen_tree(&rng, !tar);
    for _ in 0..2 {
        let st = gen_style(&rng, tar);
        let mut want = tree.clone();
        if st.host == 0 {
            // no modes: neither links nor executables
            want.retain(|_, w| matches!(w, Want::File(..)));
            want.values_mut().for_each(|w| {
                if let Want::File(_, x) = w {
                    *x = false
                }
            });
        }
        let members = arrange(&rng, &st, files_of(&rng, &st, &want), &empty);
        let bytes = if !tar {
            zip_bytes(&members)
        } else {
            let raw = tar_style(&rng, &members);
            if chance(&rng, 15) {
                // several gzip members are one gzip file
                let n = rng.usize(0..raw.len());
                [gz(&raw[..n]), gz(&raw[n..])].concat()
            } else {
                gz(&raw)
            }
        };
        let what = format!(
            "{kind} ({})\n{}",
            st.label,
            members.iter().map(|m| format!("  {:?} {:?} {:o} {} bytes{}\n", m.kind, String::from_utf8_lossy(&m.name), m.mode, m.data.len(), if m.kind == K::Symlink { format!(" -> {}", String::from_utf8_lossy(&m.data)) } else { String::new() })).collect::<String>()
        );
        p.begin(&truncate(&what, 500));
        let d = fresh_dir();
        let out = unpack_plain(kind, bytes, d.path());
        p.end();
        p.case((&kind, &members), members.len() > 1);
        judge(p, kind, out, d.path(), &want, &dirs_wanted(&want, &empty), false, &what);
        p.count("archives", 1);
        p.count(&format!("dirs style {}", st.dirs), 1);
    }
}

fn judge(p: &mut Part, kind: &str, out: Out<()>, dest: &Path, want: &Tree, dirs: &BTreeSet<Vec<Vec<u8>>>, loose: bool, what: &str) {
    match out {
        Out::Ok(()) => {
            let bad = compare(dest, want, dirs, loose);
            p.count("nodes compared", (want.len() + dirs.len()) as u64);
            if !bad.is_empty() {
                p.violate(&format!("{kind}-differs"), format!("{}\n{what}", bad.join("\n")));
            }
        }
        o => p.violate(&format!("{kind}-refused"), format!("{}\n{what}", o.describe())),
    }
}

/// our tar writer, with pax records for some members, and odd but valid type flags
fn tar_style(rng: &fastrand::Rng, members: &[M]) -> Vec<u8> {
    if chance(rng, 60) {
        return tar_bytes(members);
    }
    let mut v = vec![];
    if rng.bool() {
        let mut g = M::file("pax_global_header", "52 comment=0123456789012345678901234567890123456789\n");
        g.kind = K::Raw(b'g');
        v.push(g);
    }
    for m in members {
        let mut m = m.clone();
        if m.kind == K::File && chance(rng, 20) {
            // the old and the "contiguous" flag for regular files
            m.kind = K::Raw(*pick(rng, &[0u8, b'7']));
        }
        if chance(rng, 40) {
            let mut body = vec![];
            for (k, val) in [("mtime", b"1600000000.25".to_vec()), ("path", m.name.clone())] {
                let mut n = k.len() + val.len() + 3;
                let mut total = n + n.to_string().len();
                if total.to_string().len() != n.to_string().len() {
                    total = n + total.to_string().len();
                }
                n = total;
                body.extend(format!("{n} {k}=").into_bytes());
                body.extend(val);
                body.push(b'\n');
            }
            let mut h = M::file("PaxHeaders/x", body);
            h.kind = K::Raw(b'x');
            v.push(h);
            m.name = if m.kind == K::Dir { b"short/".to_vec() } else { b"short".to_vec() };
        }
        v.push(m);
    }
    tar_bytes(&v)
}

// ------------------------------------------------------------------ other archivers

const WRITER: &str = r#"
import sys, os, json, tarfile, zipfile, shutil, subprocess, random
src, out, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
rnd = random.Random(seed)
made = []
def walk(dirs):
    names = []
    for d, ds, fs in os.walk(src):
        rel = os.path.relpath(d, src)
        for n in ds + fs:
            f = os.path.normpath(os.path.join(rel, n))
            full = os.path.join(src, f)
            if os.path.isdir(full) and not os.path.islink(full) and not dirs and os.listdir(full):
                continue
            names.append(f)
    rnd.shuffle(names)
    return names
for fmt, name in ((tarfile.PAX_FORMAT, 'pax'), (tarfile.GNU_FORMAT, 'gnu')):
    for dirs in (False, True):
        p = os.path.join(out, f'{name}-{dirs}.tar.gz')
        with tarfile.open(p, 'w:gz', format=fmt) as t:
            for n in walk(dirs):
                t.add(os.path.join(src, n), n, recursive=False)
        made.append(p)
shutil.make_archive(os.path.join(out, 'shutil'), 'gztar', src, '.')
made.append(os.path.join(out, 'shutil.tar.gz'))
for dirs in (False, True):
    for comp in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED):
        p = os.path.join(out, f'zip-{dirs}-{comp}.zip')
        with zipfile.ZipFile(p, 'w', comp) as z:
            for n in walk(dirs):
                z.write(os.path.join(src, n), n)
        made.append(p)
p = os.path.join(out, 'stream.zip')
class Pipe:
    # cannot seek, so sizes follow the data
    def __init__(self, f): self.f = f
    def write(self, b): return self.f.write(b)
    def flush(self): self.f.flush()
with open(p, 'wb') as f:
    with zipfile.ZipFile(Pipe(f), 'w', zipfile.ZIP_DEFLATED) as z:
        z.comment = b'a comment PK\x05\x06'[:rnd.choice([0, 9, 10])]
        for n in walk(True):
            z.write(os.path.join(src, n), n)
made.append(p)
for args, name in ((['--format=gnu', '-S'], 'sparse'), (['--format=ustar'], 'ustar'), (['--format=posix'], 'posix'), (['--format=gnu', '--sort=name'], 'dotgnu')):
    p = os.path.join(out, f'tar-{name}.tar.gz')
    what = ['.'] if name == 'dotgnu' else ['--'] + sorted(os.listdir(src))
    r = subprocess.run(['tar', '-C', src, '-czf', p] + args + what, capture_output=True)
    if r.returncode == 0:
        made.append(p)
    elif name != 'ustar':
        sys.exit(r.stderr.decode())
print(json.dumps(made))
"#;

fn others(p: &mut Part) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let (mut tree, empty) = gen_tree(&rng, false);
    // a file with a big hole
    if chance(&rng, 50) {
        let mut d = b"start".to_vec();
        d.resize(200_000, 0);
        d.extend(b"end");
        let name = vec![b"holes".to_vec()];
        if room(&tree, &name) {
            tree.insert(name, Want::File(d, false));
        }
    }
    let work = fresh_dir();
    let (src, out) = (work.path().join("src"), work.path().join("out"));
    std::fs::create_dir_all(&src).unwrap();
    std::fs::create_dir_all(&out).unwrap();
    let path = |k: &[Vec<u8>]| src.join(PathBuf::from(std::ffi::OsString::from_vec(join(k))));
    for (k, w) in &tree {
        if let Want::File(d, x) = w {
            let f = path(k);
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            if k[0] == b"holes" {
                use std::os::unix::fs::FileExt;
                let h = std::fs::File::create(&f).unwrap();
                h.write_all_at(b"start", 0).unwrap();
                h.write_all_at(b"end", 200_000).unwrap();
                h.set_len(d.len() as u64).unwrap();
            } else {
                std::fs::write(&f, d).unwrap();
            }
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(if *x { 0o755 } else { 0o644 })).unwrap();
        }
    }
    for e in &empty {
        std::fs::create_dir_all(path(e)).unwrap();
    }
    let r = Command::new("/usr/local/bin/python3").args(["-c", WRITER]).arg(&src).arg(&out).arg(rng.u32(..).to_string()).env("LC_ALL", "C.UTF-8").output();
    let made: Vec<String> = match r {
        Ok(o) if o.status.success() => serde_json::from_slice(&o.stdout).unwrap_or_default(),
        Ok(o) => return p.problem(format!("the archive writer failed: {}", String::from_utf8_lossy(&o.stderr))),
        Err(e) => return p.problem(format!("python3: {e}")),
    };
    for f in made {
        let bytes = std::fs::read(&f).unwrap();
        let base = Path::new(&f).file_name().unwrap().to_string_lossy().into_owned();
        let kinds: &[&str] = if f.ends_with("zip") { &["pybi", "zip"] } else { &["tar"] };
        for kind in kinds {
            let d = fresh_dir();
            p.begin(&format!("{base} of {tree:?}").chars().take(500).collect::<String>());
            let o = unpack_plain(kind, bytes.clone(), d.path());
            p.end();
            p.case((&base, kind, &tree), true);
            p.count(&format!("by other archivers: {}", base.split(['-', '.']).next().unwrap()), 1);
            let what = format!("{base} as {kind}, of\n{}", tree.iter().map(|(k, w)| format!("  {:?} {}\n", String::from_utf8_lossy(&join(k)), if let Want::File(d, x) = w { format!("{} bytes {x}", d.len()) } else { String::new() })).collect::<String>());
            judge(p, kind, o, d.path(), &tree, &dirs_wanted(&tree, &empty), false, &what);
        }
    }
}

// ------------------------------------------------------------------ wheels

fn script_body(rng: &fastrand::Rng) -> Vec<u8> {
    let mut b = b"import sys\nprint('ran', sys.argv[1:])\n".to_vec();
    if chance(rng, 30) {
        b.extend(format!("# {}\n", "pad".repeat(rng.usize(0..5000))).into_bytes());
    }
    b.extend(format!("sys.exit({})\n", rng.u8(0..100)).into_bytes());
    b
}

fn wheel(p: &mut Part) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let dist = *pick(&rng, &["foo", "Foo", "foo_bar", "Foo.Bar", "f00"]);
    let version = *pick(&rng, &["1.0", "2!1.0.post1", "0.1a1", "1.0+local.1", "2023.10.1", "1"]);
    let other = |rng: &fastrand::Rng, s: &str| match rng.u8(0..5) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase().replace('.', "_"),
        _ => s.to_string(),
    };
    let file_name = format!("{}-{version}-{}.whl", dist.replace('-', "_"), pick(&rng, &["py3-none-any", "1-py3-none-any", "cp311-cp311-manylinux_2_17_x86_64", "py2.py3-none-any"]));
    // the same version can be spelled differently in each place
    let parsed = pep440::parse(version).unwrap();
    let respelled = |rng: &fastrand::Rng| if chance(rng, 20) { parsed.respell(rng).trim().to_string() } else { version.to_string() };
    let di_version = Some(respelled(&rng)).filter(|v| !v.contains('-')).unwrap_or(version.into());
    let di = format!("{}-{di_version}.dist-info", other(&rng, dist));
    let data = format!("{}-{version}.data", if chance(&rng, 80) { di.rsplit_once('-').map(|x| x.0.rsplit_once('-').map(|y| y.0).unwrap_or(dist)).unwrap_or(dist).to_string() } else { other(&rng, dist) });
    let pure = rng.bool();
    let dirs: HashMap<String, String> = match rng.u8(0..4) {
        0 => [("scripts", "bin"), ("purelib", "lib/pure"), ("platlib", "lib/plat"), ("data", "share")],
        1 => [("scripts", "Scripts"), ("purelib", "Lib/site-packages"), ("platlib", "Lib/site-packages"), ("data", ".")],
        2 => [("scripts", "a/bin"), ("purelib", "p"), ("platlib", "q"), ("data", "./d/")],
        _ => [("scripts", "bin"), ("purelib", "lib"), ("platlib", "lib"), ("data", ".")],
    }
    .into_iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    let platform = *pick(&rng, &[ScriptPlatform::Both, ScriptPlatform::Both, ScriptPlatform::Unix, ScriptPlatform::Windows]);
    let unix = platform != ScriptPlatform::Windows;
    let win = platform != ScriptPlatform::Unix;

    let mut want = Tree::new();
    let mut members: Vec<M> = vec![];
    let mut names: BTreeSet<Vec<Vec<u8>>> = BTreeSet::new();
    let exe = |p: &[Vec<u8>]| {
        let mut p = p.to_vec();
        p.last_mut().unwrap().extend(b".exe");
        p
    };
    let add = |want: &mut Tree, members: &mut Vec<M>, names: &mut BTreeSet<Vec<Vec<u8>>>, m: M| {
        let Some(np) = norm(&m.name) else { return };
        let Some((place, script)) = wheel_place(&np, &data, pure, &dirs) else { return };
        let clash = |q: &[Vec<u8>]| !room(want, q);
        if clash(&place) || (script && (clash(&exe(&place)))) {
            return;
        }
        // the members must not clash as an archive either
        if names.iter().any(|k| k.starts_with(&np) || np.starts_with(k)) {
            return;
        }
        names.insert(np);
        if script && m.data.starts_with(b"#!python") {
            let gui = m.data.starts_with(b"#!pythonw");
            let body = match m.data.iter().position(|b| *b == b'\n') {
                Some(i) => m.data[i + 1..].to_vec(),
                None => vec![],
            };
            if unix {
                want.insert(place.clone(), Want::Launcher(body, gui));
            }
            if win {
                want.insert(exe(&place), Want::Exe);
            }
        } else {
            want.insert(place, Want::File(m.data.clone(), script));
        }
        members.push(m);
    };
    // the obligatory ones first, so that they have their place
    let meta = format!("Metadata-Version: 2.1\nName: {}\nVersion: {}\n", other(&rng, dist).replace('_', *pick(&rng, &["_", "-", "."])), respelled(&rng));
    let wheel_text = format!(
        "Wheel-Version: {}\nGenerator: x\nRoot-Is-Purelib: {pure}\nTag: py3-none-any\n",
        pick(&rng, &["1.0", "1.0", "1.1", "1.9", "1.10"])
    );
    let mut eps = String::new();
    for (f, t) in [("METADATA", meta.as_str()), ("WHEEL", &wheel_text), ("RECORD", "x,,\n")] {
        add(&mut want, &mut members, &mut names, M::file(&format!("{di}/{f}"), t));
    }
    for _ in 0..rng.usize(0..12) {
        let mut path: Vec<String> = (0..rng.usize(1..4)).map(|_| gen_piece(&rng)).collect();
        // (top level names with the special suffixes would be something else)
        let mut body = gen_body(&rng);
        match rng.u8(0..8) {
            0..=3 => {}
            4 => {
                path.insert(0, "purelib".into());
                path.insert(0, data.clone());
            }
            5 => {
                path.insert(0, "platlib".into());
                path.insert(0, data.clone());
            }
            6 => {
                path.insert(0, "data".into());
                path.insert(0, data.clone());
            }
            _ => {
                path.insert(0, "scripts".into());
                path.insert(0, data.clone());
                if chance(&rng, 80) {
                    let first = *pick(&rng, &["#!python\n", "#!python\n", "#!pythonw\n", "#!python\r\n", "#!python -E\n", "#!python", "#!/bin/sh\n", "#!/usr/bin/python\n", "#!pytho\n", "#! python\n", "\n#!python\n", "\x7fELF", ""]);
                    body = [first.as_bytes(), &script_body(&rng)[..]].concat();
                    if first == "#!python" {
                        body = first.into();
                    }
                }
            }
        }
        let mut m = M::file(&path.join("/"), &body);
        m.mode = *pick(&rng, &[0o644, 0o755, 0o600]);
        m.deflate = rng.bool();
        add(&mut want, &mut members, &mut names, m);
    }
    for sect in ["console_scripts", "gui_scripts"] {
        if chance(&rng, 40) {
            eps += &format!("[{sect}]\n");
            for _ in 0..rng.usize(1..3) {
                let n = pick(&rng, &["tool", "tool-2", "my.tool", "a_tool", "Tool3", "tool space"]).to_string();
                let np = norm(format!("{data}/scripts/{n}").as_bytes()).unwrap();
                let Some((place, _)) = wheel_place(&np, &data, pure, &dirs) else { continue };
                if !room(&want, &place) || !room(&want, &exe(&place)) {
                    continue;
                }
                if unix {
                    want.insert(place.clone(), Want::Entry(sect == "gui_scripts"));
                }
                if win {
                    want.insert(exe(&place), Want::Exe);
                }
                eps += &format!("{n} = mod{}.sub:main\n", rng.u8(0..9));
            }
        }
    }
    if !eps.is_empty() {
        add(&mut want, &mut members, &mut names, M::file(&format!("{di}/entry_points.txt"), &eps));
    }
    let inst = norm(format!("{di}/INSTALLER").as_bytes()).unwrap();
    let (inst, _) = wheel_place(&inst, &data, pure, &dirs).unwrap();
    if !room(&want, &inst) {
        return;
    }
    want.insert(inst.clone(), Want::File(b"posy\n".to_vec(), false));

    let broken = chance(&rng, 25);
    let mut how = String::new();
    if broken {
        how = spoil(&rng, &mut members, &di, dist, version);
    }
    let st = gen_style(&rng, false);
    for m in &mut members {
        m.host = st.host;
    }
    let members = arrange(&rng, &st, members, &[]);
    let bytes = zip_bytes(&members);
    let what = format!(
        "{file_name}, Root-Is-Purelib {pure}, {}, scripts for {platform:?}, spoiled: {how:?}, into {dirs:?}\n{}entry points:\n{eps}",
        st.label,
        members.iter().map(|m| format!("  {:?} {:?} {} bytes {:?}\n", m.kind, String::from_utf8_lossy(&m.name), m.data.len(), String::from_utf8_lossy(&m.data[..m.data.len().min(20)]))).collect::<String>()
    );
    let d = fresh_dir();
    let paths: HashMap<String, NicePathBuf> = dirs.iter().map(|(k, v)| (k.clone(), v.as_str().try_into().unwrap())).collect();
    p.begin(&truncate(&what, 500));
    let out = run(|| -> eyre::Result<()> {
        let w = Wheel::new(file_name.as_str().try_into()?, Box::new(Cursor::new(bytes.clone())))?;
        w.unpack(&paths, &TrampolineMaker::new(FindPython::FromEnv, platform), WriteTreeFS::new(d.path()))
    });
    let md = run(|| -> eyre::Result<_> {
        let w = Wheel::new(file_name.as_str().try_into()?, Box::new(Cursor::new(bytes.clone())))?;
        w.metadata()
    });
    p.end();
    p.case((&file_name, &members, &how), true);
    p.count(if broken { "spoiled wheels" } else { "wheels" }, 1);
    if broken {
        for (o, w) in [(out.kind(), "unpack"), (md.kind(), "metadata")] {
            if o != "err" {
                p.violate(&format!("spoiled-{}", how.split(':').next().unwrap()), format!("{w}: {o}\n{what}"));
            }
        }
        return;
    }
    match md {
        Out::Ok((blob, _)) if blob == meta.as_bytes() => {}
        Out::Ok(_) => p.violate("wheel-metadata", format!("other metadata\n{what}")),
        o => p.violate("wheel-metadata", format!("{}\n{what}", o.describe())),
    }
    // directory members of the layout itself may or may not leave directories behind
    let good = out.is_ok();
    judge(p, "wheel", out, d.path(), &want, &dirs_of(want.keys()), true, &what);
    if good {
        launchers(p, &rng, d.path(), &want, &what);
    }
    if p.rng.u32(0..200) == 0 {
        p.sample(serde_json::json!({"wheel": file_name, "members": members.len(), "places": want.keys().map(|k| String::from_utf8_lossy(&join(k)).into_owned()).take(8).collect::<Vec<_>>()}));
    }
}

/// Run what the launchers start.
fn launchers(p: &mut Part, rng: &fastrand::Rng, dest: &Path, want: &Tree, what: &str) {
    for (k, w) in want {
        let file = dest.join(PathBuf::from(std::ffi::OsString::from_vec(join(k))));
        match w {
            Want::Launcher(body, gui) if chance(rng, 70) => {
                let (var, other) = if *gui { ("POSY_PYTHONW", "POSY_PYTHON") } else { ("POSY_PYTHON", "POSY_PYTHONW") };
                let args = [*pick(rng, &["a", "a b", "", "*", "$x", "é", "-h", "'"]), "z"];
                let r = Command::new(&file)
                    .args(args)
                    .env_clear()
                    .env("PATH", "/usr/local/bin:/usr/bin:/bin")
                    .env("LC_ALL", "C.UTF-8")
                    .env(var, "/usr/local/bin/python3")
                    .env(other, "/bin/false")
                    .output();
                let o = match r {
                    Ok(o) => o,
                    Err(e) => {
                        p.violate("launcher-does-not-run", format!("{}: {e}\n{what}", file.display()));
                        continue;
                    }
                };
                let text = String::from_utf8_lossy(body);
                let code: i32 = text.rsplit_once("sys.exit(").and_then(|x| x.1.split(')').next()?.parse().ok()).unwrap_or(0);
                let want_out = if body.is_empty() { String::new() } else { format!("ran [{}]\n", args.map(py_repr).join(", ")) };
                if o.status.code() != Some(code) || String::from_utf8_lossy(&o.stdout) != want_out {
                    p.violate(
                        "launcher-runs-wrong",
                        format!("{} {args:?}: {:?}, {:?} {:?}; expected {code}, {want_out:?}\n{what}", file.display(), o.status, String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)),
                    );
                }
                p.count("launchers run", 1);
            }
            Want::Exe => {
                // an executable for Windows with the script in a zip at its end
                let r = std::fs::read(&file).map_err(|e| e.to_string()).and_then(|b| {
                    if !b.starts_with(b"MZ") {
                        return Err("no MZ".into());
                    }
                    let mut z = zip::ZipArchive::new(Cursor::new(b)).map_err(|e| e.to_string())?;
                    let mut f = z.by_name("__main__.py").map_err(|e| e.to_string())?;
                    let mut t = vec![];
                    f.read_to_end(&mut t).map_err(|e| e.to_string())?;
                    Ok(t)
                });
                let mut bare = k.clone();
                let n = bare.last_mut().unwrap();
                n.truncate(n.len() - 4);
                match (r, want.get(&bare)) {
                    (Ok(t), Some(Want::Launcher(b, _))) if t != *b => p.violate("exe-script", format!("{}\n{what}", file.display())),
                    (Ok(_), _) => p.count("Windows launchers opened", 1),
                    (Err(e), _) => p.violate("exe-script", format!("{}: {e}\n{what}", file.display())),
                }
            }
            _ => {}
        }
    }
}

fn py_repr(s: &str) -> String {
    if s.contains('\'') {
        format!("\"{s}\"")
    } else {
        format!("'{s}'")
    }
}

/// Make the wheel inconsistent with its name, or of another format.
/// some version that is not this one, though maybe close
fn another_version(rng: &fastrand::Rng, version: &str) -> String {
    let v = pep440::parse(version).unwrap();
    let mut near = vec!["9.9".to_string(), "1.0.1".into(), "1.0.dev0".into(), "1!1.0".into(), "1.0.post1".into(), "1.0rc1".into(), "2023.10".into(), "0.1".into()];
    for suffix in [".post1", ".1", ".dev1", "rc1", "+x"] {
        near.push(format!("{version}{suffix}"));
    }
    if let Some((public, _)) = version.split_once('+') {
        near.push(public.into());
    }
    near.retain(|n| pep440::parse(n).map_or(false, |n| pep440::cmp(&n, &v).is_ne()));
    pick(rng, &near).clone()
}

fn spoil(rng: &fastrand::Rng, members: &mut Vec<M>, di: &str, dist: &str, version: &str) -> String {
    let set = |members: &mut Vec<M>, f: &str, from: &str, to: &str| {
        for m in members.iter_mut() {
            if m.name == format!("{di}/{f}").into_bytes() {
                let t = String::from_utf8(m.data.clone()).unwrap();
                let line = t.lines().find(|l| l.starts_with(from)).unwrap().to_string();
                m.data = t.replace(&line, to).into_bytes();
            }
        }
    };
    let rename = |members: &mut Vec<M>, to: &str| {
        for m in members.iter_mut() {
            if m.name.starts_with(di.as_bytes()) {
                m.name = [to.as_bytes(), &m.name[di.len()..]].concat();
            }
        }
    };
    match rng.u8(0..12) {
        0 => {
            let n = *pick(rng, &["other", "foobar2", "fo"]);
            set(members, "METADATA", "Name:", &format!("Name: {n}"));
            format!("metadata-name: {n}")
        }
        1 => {
            let v = another_version(rng, version);
            set(members, "METADATA", "Version:", &format!("Version: {v}"));
            format!("metadata-version: {v}")
        }
        2 => {
            rename(members, &format!("other-{version}.dist-info"));
            "dist-info-name".into()
        }
        3 => {
            rename(members, &format!("{dist}-{}.dist-info", another_version(rng, version)));
            "dist-info-version".into()
        }
        4 => {
            rename(members, "stuff");
            "no-dist-info".into()
        }
        5 => {
            members.retain(|m| m.name != format!("{di}/WHEEL").into_bytes());
            "no-wheel-file".into()
        }
        6 => {
            members.retain(|m| m.name != format!("{di}/METADATA").into_bytes());
            "no-metadata".into()
        }
        7 => {
            members.push(M::file("other-1.0.dist-info/METADATA", "Metadata-Version: 2.1\nName: other\nVersion: 1.0\n"));
            "two-dist-infos".into()
        }
        8 => {
            let v = *pick(rng, &["2.0", "2.1", "3.0", "10.0", "0.9"]);
            set(members, "WHEEL", "Wheel-Version:", &format!("Wheel-Version: {v}"));
            format!("wheel-version: {v}")
        }
        9 => {
            match rng.u8(0..3) {
                0 => {
                    set(members, "WHEEL", "Root-Is-Purelib:", "X: y");
                    "no-purelib".into()
                }
                1 => {
                    set(members, "WHEEL", "Root-Is-Purelib:", *pick(rng, &["Root-Is-Purelib: maybe", "Root-Is-Purelib: 1", "Root-Is-Purelib:"]));
                    "odd-purelib".into()
                }
                _ => {
                    set(members, "WHEEL", "Wheel-Version:", "X: y");
                    "no-wheel-version".into()
                }
            }
        }
        10 => {
            members.push(M::file(&format!("{dist}-{}.data/scripts/x", another_version(rng, version)), "x"));
            "data-version".into()
        }
        _ => {
            set(members, "METADATA", "Name:", "X: y");
            "no-name".into()
        }
    }
}

/// Pybis: the same for their metadata.
fn pybi_metadata(p: &mut Part) {
    let rng = fastrand::Rng::with_seed(p.rng.u64(..));
    let version = *pick(&rng, &["3.11.0", "3.12.0a1"]);
    let mut fmt = format!("Pybi-Version: {}\nGenerator: x\nTag: linux_x86_64\n", pick(&rng, &["1.0", "1.1"]));
    let mut meta = format!(
        "Metadata-Version: 2.1\nName: cpython_unofficial\nVersion: {version}\nPybi-Environment-Marker-Variables: {{\"python_version\": \"3.11\"}}\nPybi-Paths: {{\"stdlib\": \"lib\", \"purelib\": \"site\", \"scripts\": \"bin\"}}\nPybi-Wheel-Tag: py3-none-any\n"
    );
    let mut how = "";
    match rng.u8(0..8) {
        0 => {
            fmt = fmt.replace("Pybi-Version: 1", "Pybi-Version: 2");
            how = "version of the format";
        }
        1 => {
            meta = meta.replace("Name: cpython_unofficial", "Name: pypy");
            how = "name";
        }
        2 => {
            meta = meta.replace(&format!("Version: {version}\n"), "Version: 3.10.1\n").replace("Metadata-Version: 3.10.1", "Metadata-Version: 2.1");
            how = "version";
        }
        _ => {}
    }
    let z = zip_bytes(&[M::file("pybi-info/PYBI", &fmt), M::file("pybi-info/METADATA", &meta)]);
    let o = run(|| -> eyre::Result<_> {
        Pybi::new(format!("cpython_unofficial-{version}-linux_x86_64.pybi").as_str().try_into()?, Box::new(Cursor::new(z)))?.metadata()
    });
    p.case(("pybi", &fmt, &meta), true);
    match (how, o) {
        ("", Out::Ok((blob, _))) if blob == meta.as_bytes() => p.count("pybi metadata read", 1),
        (h, Out::Err(_)) if !h.is_empty() => p.count("pybi metadata refused", 1),
        (h, o) => p.violate("pybi-metadata", format!("wrong {h:?}: {}\n{fmt}\n{meta}", o.describe())),
    }
}

pub fn run_(mut c: Ctx) {
    c.rule = "an archive with at least two members, compared node by node with the model it was written from".into();
    c.assumptions = vec![
        "umask 022; directory modes, times and owners are not compared".into(),
        "'headers' in wheels' .data directories is not exercised (posy does not support it and says so)".into(),
    ];
    unsafe { libc::umask(0o022) };
    parallel(&mut c, 8, 30, 420, |p| {
        while p.within() {
            match p.rng.u8(0..20) {
                0 => others(p),
                1..=8 => plain(p),
                9..=18 => wheel(p),
                _ => pybi_metadata(p),
            }
        }
    });
    c.finish()
}
