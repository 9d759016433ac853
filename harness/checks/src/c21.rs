//! C21: index pages: every understood anchor, exactly as given, and nothing else.
use crate::common::*;
use crate::{gens, srv};
use posy::verif::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use url::Url;

#[derive(Clone, Debug)]
struct Want {
    file: String,
    href: String, // after entity decoding
    requires_python: Option<String>,
    yanked: Option<String>,
    dim: Option<String>,
}

fn esc(rng: &fastrand::Rng, s: &str, quote: Option<char>) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '&' => o += *pick(rng, &["&amp;", "&#38;", "&#x26;"]),
            '<' => o += *pick(rng, &["&lt;", "&#60;", "<"]),
            '>' if quote.is_none() => o += "&gt;",
            '>' => o += *pick(rng, &["&gt;", "&#62;", ">"]),
            '"' if quote == Some('"') => o += "&quot;",
            '\'' if quote == Some('\'') => o += "&#39;",
            c if c.is_ascii_alphabetic() && chance(rng, 1) => o += &format!("&#{};", c as u32),
            c => o.push(c),
        }
    }
    o
}

fn attr(rng: &fastrand::Rng, name: &str, val: &str) -> String {
    let name: String = if chance(rng, 20) { name.to_ascii_uppercase() } else { name.into() };
    let simple = !val.is_empty() && val.chars().all(|c| c.is_ascii_alphanumeric() || "./:#=-_%&+~!*,@".contains(c)) && !val.ends_with('/');
    let sp = *pick(rng, &[" ", " ", "\n   ", "\t"]);
    let (a, b) = *pick(rng, &[("", ""), ("", ""), (" ", " "), ("", " ")]);
    match rng.u8(0..10) {
        0 if simple => format!("{sp}{name}={}", esc(rng, val, None).replace('=', "=")),
        1 | 2 => format!("{sp}{name}{a}={b}'{}'", esc(rng, val, Some('\''))),
        3 if val.is_empty() => format!("{sp}{name}"),
        _ => format!("{sp}{name}{a}={b}\"{}\"", esc(rng, val, Some('"'))),
    }
}

fn pct(rng: &fastrand::Rng, s: &str, p: u32) -> String {
    s.chars()
        .map(|c| {
            if (c == '+' && chance(rng, 60)) || (c.is_ascii_alphanumeric() && chance(rng, p)) {
                format!("%{:02X}", c as u32)
            } else {
                c.to_string()
            }
        })
        .collect()
}

fn hex(rng: &fastrand::Rng) -> String {
    (0..32).map(|_| format!("{:02x}", rng.u8(..))).collect()
}

struct Page {
    html: String,
    want: Vec<Want>,
    base: Option<String>,
    version: Option<String>,
    junk: usize,
}

fn files(rng: &fastrand::Rng, proj: &str) -> String {
    let p = gens::respell(rng, proj);
    let rename = |f: String, d: &str| -> String {
        // replace the generated distribution by ours
        let n = ArtifactName::try_from(f.as_str()).map(|n| n.distribution().as_given().len()).unwrap_or(0);
        format!("{d}{}", &f[n..])
    };
    loop {
        let f = match rng.u8(0..6) {
            0 | 1 => rename(gens::sdist_name(rng), &p),
            2 => rename(gens::pybi_name(rng), &p.replace('-', "_")),
            _ => rename(gens::wheel_name(rng), &p.replace('-', "_")),
        };
        if ArtifactName::try_from(f.as_str()).is_ok() {
            return f;
        }
    }
}

fn page(rng: &fastrand::Rng, proj: &str) -> Page {
    let mut want = vec![];
    let mut junk = 0;
    let mut body = String::new();
    let mut head = String::new();
    if rng.bool() {
        head += *pick(rng, &["<!DOCTYPE html>\n", "<!doctype html>", "<!-- <a href=\"x-1.0.tar.gz\"> -->", "\u{feff}"]);
    }
    let full = chance(rng, 70);
    let mut base = None;
    let mut version = None;
    let mut hd = String::new();
    if chance(rng, 50) {
        let v = *pick(rng, &["1.0", "1.1", "1.23"]);
        version = Some(v.to_string());
        hd += &format!("<meta{}{}>", attr(rng, "name", "pypi:repository-version"), attr(rng, "content", v));
    }
    hd += *pick(rng, &["", "<title>Links <a href=\"t-1.0.tar.gz\">x</a></title>", "<meta name=generator content='<a href=y-1.0.zip>'>"]);
    if chance(rng, 40) {
        if chance(rng, 20) {
            hd += "<base target=_blank>";
        }
        let b = *pick(rng, &["http://other.example/files/", "../b/", "/root/", "https://h.example:8443/a/b", "//proto.example/x/"]);
        hd += &format!("<base{}>", attr(rng, "href", b));
        base = Some(b.to_string());
        if chance(rng, 30) {
            hd += "<base href=\"http://second.example/\">";
        }
    }
    hd += *pick(rng, &["", "<style>a { content: '<a href=\"s-1.0.tar.gz\">' }</style>", "<script>var x = '<a href=\"j-1.0.tar.gz\">k</a>';</script>"]);
    for _ in 0..rng.usize(0..9) {
        if chance(rng, 25) {
            junk += 1;
            body += *pick(rng, &[
                "<!-- <a href=\"c-1.0.tar.gz#sha256=00\">old</a> -->",
                "<a href=\"../\">up</a>", "<a>no href</a>", "<a name='n'></a>", "<a href=''></a>",
                "<a href=\"foo-1.0.exe\">x</a>", "<a href=\"foo-1.0-py3.8.egg\">x</a>", "<a href='mailto:a@b'>m</a>",
                "<a href='javascript:void(0)'>j</a>", "<a href='http://[bad/foo-1.0.tar.gz'>b</a>",
                "<a href=\"foo-1.0-py3-none.whl\">short</a>", "<a href=\"foo-zzz-py3-none-any.whl\">v</a>",
                "<a href=\"foo-1.0.tar.bz2\">x</a>", "<a href=\"data:text/html,foo-1.0.tar.gz\">d</a>",
                "<link href=\"foo-9.9.tar.gz\" rel=x>", "<textarea><a href=\"ta-1.0.tar.gz\"></textarea>",
                "<area href=\"foo-9.8.tar.gz\">", "<a data-href=\"foo-9.7.tar.gz\">x</a>",
                "<a href=\"foo-1.0.tar.gz.asc\">sig</a>", "<a href=\"foo-1.0.tar.gz/\">dir</a>", "<p title=\"<a href='foo-9.6.zip'>\">q</p>",
                "<a href=\"-1.0.tar.gz\">x</a>", "<a href='foo-1.0-py3-none-any.whl.metadata'>pep658</a>", "<a href='foo-%ZZ-py3-none-any.whl'>x</a>",
            ]);
            continue;
        }
        let file = files(rng, proj);
        let frag = match rng.u8(0..8) {
            0 => String::new(),
            1 => format!("#sha256={}", hex(rng).to_ascii_uppercase()),
            2 => format!("#{}", pick(rng, &["egg=foo", "sha256=zz", "sha256", "", "md5=d41d8cd98f00b204e9800998ecf8427e", "sha256=abc", "frag"])),
            _ => format!("#sha256={}", hex(rng)),
        };
        let dir = *pick(rng, &["", "", "../../packages/ab/", "/abs/", "http://files.example/p/q/", "https://u:p@files.example/x/", "//cdn.example/", "./", "a%20b/", "?x=1/", "d;p/"]);
        let dir = if dir.starts_with('?') { "" } else { dir };
        let query = *pick(rng, &["", "", "", "?a=1&b=2", "?dl"]);
        let p = *pick(rng, &[0u32, 0, 0, 15]);
        let href = format!("{dir}{}{query}{frag}", pct(rng, &file, p));
        let w = Want {
            file: file.clone(),
            href: href.clone(),
            requires_python: chance(rng, 40).then(|| pick(rng, &[">=3.6", ">= 3.6, <4", "!=3.0.*,>=2.7", "~=3.8", "==3.*", "nonsense & more"]).to_string()),
            yanked: chance(rng, 25).then(|| pick(rng, &["", "broken", "see <issue> & \"more\"", "it's bad"]).to_string()),
            dim: chance(rng, 15).then(|| pick(rng, &["true", "sha256=00000000000000000000000000000000000000000000000000000000000000aa", "md5=d41d8cd98f00b204e9800998ecf8427e"]).to_string()),
        };
        let mut attrs = vec![attr(rng, "href", &href)];
        if let Some(r) = &w.requires_python {
            attrs.push(attr(rng, "data-requires-python", r));
        }
        if let Some(r) = &w.yanked {
            attrs.push(attr(rng, "data-yanked", r));
        }
        if let Some(r) = &w.dim {
            attrs.push(attr(rng, "data-dist-info-metadata", r));
        }
        if chance(rng, 20) {
            attrs.push(attr(rng, *pick(rng, &["rel", "class", "data-gpg-sig", "data-core-metadata", "title"]), *pick(rng, &["internal", "x", "true"])));
        }
        shuffle(rng, &mut attrs);
        if chance(rng, 10) {
            attrs.push(" href=\"dup-1.0.tar.gz\"".into()); // the first one wins
        }
        let text = *pick(rng, &["&lt;file&gt;", "file", "<b>file</b>", "", "<img src=x>", "other-9.9.tar.gz"]);
        let (pre, post) = *pick(rng, &[("", "<br>"), ("", "<br/>\n"), ("<li>", "</li>"), ("<table><tr><td>", "</td></tr></table>"), ("<div><p>", "</p></div>"), ("<h1>x</h1>", "<hr>"), ("<pre>", "</pre>")]);
        let tag = *pick(rng, &["a", "a", "a", "A"]);
        let close = *pick(rng, &["</a>", "</a>", "</A>", "</a >"]);
        body += &format!("{pre}<{tag}{}{}>{text}{close}{post}", attrs.concat(), *pick(rng, &["", " ", "\n"]));
        want.push(w);
    }
    let html = if full {
        format!("{head}<html><head>{hd}</head><body>{body}</body></html>")
    } else {
        format!("{head}{hd}{body}")
    };
    Page { html, want, base, version, junk }
}

type Key = (String, String, String, Option<String>, bool, String, bool, String);

fn expected(p: &Page, page_url: &Url) -> Vec<Key> {
    let base = match &p.base {
        Some(b) => page_url.join(b).unwrap(),
        None => page_url.clone(),
    };
    let mut out = vec![];
    for w in &p.want {
        let url = base.join(&w.href).expect("generator made a bad href");
        let hash = match url.fragment().and_then(|f| f.strip_prefix("sha256=")) {
            Some(h) if h.len() == 64 => format!("sha256={}", h.to_ascii_lowercase()),
            _ => String::new(),
        };
        let names: Vec<String> = if w.file.ends_with(".pybi") {
            let stem = w.file.strip_suffix(".pybi").unwrap();
            let (pre, arch) = stem.rsplit_once('-').unwrap();
            arch.split('.')
                .flat_map(|t| match t.strip_suffix("_universal2") {
                    Some(m) if t.starts_with("macosx_") => vec![format!("{m}_arm64"), format!("{m}_x86_64")],
                    _ => vec![t.to_string()],
                })
                .map(|t| format!("{pre}-{t}.pybi"))
                .collect()
        } else {
            vec![w.file.clone()]
        };
        for n in names {
            let n = ArtifactName::try_from(n.as_str()).unwrap().to_string();
            out.push((
                n,
                url.to_string(),
                hash.clone(),
                w.requires_python.clone(),
                w.yanked.is_some(),
                w.yanked.clone().unwrap_or_default(),
                w.dim.is_some(),
                w.dim.clone().filter(|d| d.starts_with("sha256=")).unwrap_or_default(),
            ));
        }
    }
    out
}

fn observed<'a>(it: impl Iterator<Item = &'a ArtifactInfo>) -> Vec<Key> {
    it.map(|a| {
        let h = a.hash.as_ref().map(|h| h.to_string()).unwrap_or_default();
        // an unverifiable or malformed hash may be kept or dropped, but never replaced
        let frag = a.url.fragment().unwrap_or("").to_ascii_lowercase();
        let good = frag.strip_prefix("sha256=").map_or(false, |x| x.len() == 64);
        let h = if !good && (h.is_empty() || h == frag) { String::new() } else { h };
        (
            a.name.to_string(),
            a.url.to_string(),
            h,
            a.requires_python.clone(),
            a.yanked.yanked,
            a.yanked.reason.clone().unwrap_or_default(),
            a.dist_info_metadata.available,
            a.dist_info_metadata.hash.as_ref().map(|h| h.to_string()).filter(|h| h.starts_with("sha256=")).unwrap_or_default(),
        )
    })
    .collect()
}

fn diff(want: &[Key], got: &[Key]) -> Option<String> {
    let (w, g): (BTreeSet<_>, BTreeSet<_>) = (want.iter().collect(), got.iter().collect());
    if w == g {
        return None;
    }
    let mut s = String::new();
    for k in w.difference(&g) {
        s += &format!("missing: {k:?}\n");
    }
    for k in g.difference(&w) {
        s += &format!("extra:   {k:?}\n");
    }
    Some(s)
}

pub fn run_(mut c: Ctx) -> ! {
    c.rule = "generated index pages (the generator knows the true anchors) parsed directly and through \
        PackageDB over HTTP (redirected pages, missing projects, wrong repository versions, several \
        indexes). Non-trivial: pages with at least one real anchor."
        .into();
    c.assumptions.push("URL joining follows the `url` crate (WHATWG), which the monitor uses too; files of other projects on a page are not generated".into());
    let rng = fastrand::Rng::with_seed(c.rng.u64(..));
    let n = c.n(12_000, 300_000);
    for i in 0..n {
        if !c.within(20, 400) {
            break;
        }
        let proj = gens::name(&rng);
        let p = page(&rng, &proj);
        let page_url = Url::parse(*pick(&rng, &["https://idx.example/simple/foo/", "http://idx.example/foo", "https://u@idx.example/simple/a%20b/?q=1#f"])).unwrap();
        let ct = *pick(&rng, &["text/html", "text/html; charset=utf-8", "TEXT/HTML;charset=UTF-8"]);
        let got = run(|| parse_html(&page_url, ct, p.html.as_bytes()));
        c.case(&p.html, !p.want.is_empty());
        c.count("real anchors", p.want.len() as u64);
        c.count("junk anchors", p.junk as u64);
        let pi = match got {
            Out::Ok(pi) => pi,
            o => {
                c.violate("page-failed", format!("{}\n{}", o.describe(), p.html));
                continue;
            }
        };
        let want = expected(&p, &page_url);
        if let Some(d) = diff(&want, &observed(pi.artifacts.iter())) {
            c.violate("anchors", format!("{d}page url {page_url}\n{}", p.html));
            continue;
        }
        if pi.meta.version != p.version.clone().unwrap_or("1.0".into()) {
            c.violate("repository-version", format!("{:?}\n{}", pi.meta.version, p.html));
        }
        // grouping
        let mut map = Default::default();
        match run(|| pack_by_version(pi.clone(), &mut map)) {
            Out::Ok(()) => {}
            o => c.violate("pack", o.describe()),
        }
        let mut all = vec![];
        for (v, ais) in &map {
            for a in ais {
                if a.name.version() != v {
                    c.violate("grouping", format!("{} filed under {v}", a.name));
                }
            }
            all.extend(ais.iter().cloned());
        }
        if let Some(d) = diff(&want, &observed(all.iter())) {
            c.violate("grouping-lost", d);
        }
        if i % 3001 == 0 {
            c.sample(json!({"page": truncate(&p.html, 500), "anchors": want.len()}));
        }
    }
    // wrong content types and repository versions
    for (ct, html, ok) in [
        ("application/json", "{}", false),
        ("text/plain", "<a href='foo-1.0.tar.gz'></a>", false),
        ("garbage", "", false),
        ("text/html", "<meta name='pypi:repository-version' content='2.0'><a href='foo-1.0.tar.gz'></a>", false),
        ("text/html", "<meta content='10.0' name='pypi:repository-version'><a href='foo-1.0.tar.gz'></a>", false),
        ("text/html", "<meta name='pypi:repository-version' content='0.9'><a href='foo-1.0.tar.gz'></a>", false),
        ("text/html", "<meta name='pypi:repository-version' content='1.99'><a href='foo-1.0.tar.gz'></a>", true),
        ("text/html", "<meta name='other' content='2.0'><a href='foo-1.0.tar.gz'></a>", true),
    ] {
        let url = Url::parse("http://h/foo/").unwrap();
        let mut map = Default::default();
        let got = run(|| parse_html(&url, ct, html.as_bytes()).and_then(|pi| pack_by_version(pi, &mut map)));
        c.case((ct, html), true);
        if got.is_ok() != ok || got.is_panic() {
            c.violate("page-acceptance", format!("{ct} {html}: {}", got.describe()));
        }
    }
    over_http(&mut c, &rng);
    changing(&mut c, &rng);
    c.finish()
}

fn over_http(c: &mut Ctx, rng: &fastrand::Rng) {
    let pages: Arc<Mutex<BTreeMap<String, srv::Reply>>> = Default::default();
    let p2 = pages.clone();
    let s = srv::Server::start(Arc::new(move |r: &srv::Req| {
        srv::Act::Reply(p2.lock().unwrap().get(&r.target).cloned().unwrap_or(srv::Reply::new(404, "nope")))
    }));
    let dir = scratch();
    let forest = EnvForest::new(&dir.path().join("forest")).unwrap();
    let store = KVDirStore::new(&dir.path().join("build")).unwrap();
    for i in 0..c.n(150, 3000) {
        if !c.within(40, 700) {
            break;
        }
        let proj = gens::name(rng);
        let norm = crate::pep508::normalize(&proj);
        let root = format!("/r{i}");
        let (i1, i2) = (s.url(&format!("{root}/one/")), s.url(&format!("{root}/two/")));
        let mut want = vec![];
        let mut expect_err = false;
        for (k, idx) in ["one", "two"].iter().enumerate() {
            if chance(rng, 25) {
                continue; // project missing there
            }
            let mut p = page(rng, &proj);
            let at = format!("{root}/{idx}/{norm}/");
            let mut real = at.clone();
            if chance(rng, 30) {
                real = format!("{root}/elsewhere{k}/x/");
                let loc = if rng.bool() { s.url(&real) } else { real.clone() };
                pages.lock().unwrap().insert(at.clone(), srv::Reply::redirect(*pick(rng, &[301, 302, 303, 307, 308]), &loc));
            }
            if chance(rng, 8) {
                p.html = format!("<meta name='pypi:repository-version' content='2.0'>{}", p.html);
                expect_err = p.version.is_none(); // a later meta element may override
                if !expect_err {
                    p.html = p.html.replacen("<meta name='pypi:repository-version' content='2.0'>", "", 1);
                }
                if expect_err && p.html.contains("<base") {
                    // the early meta starts the document; bases still apply
                }
            }
            let mut rep = srv::Reply::html(&p.html);
            if chance(rng, 5) {
                rep.status = *pick(rng, &[403, 410, 502, 400]);
                expect_err = true;
            }
            rep.framing = match rng.u8(0..3) {
                0 => srv::Framing::Chunked,
                1 => srv::Framing::Close,
                _ => srv::Framing::Length,
            };
            pages.lock().unwrap().insert(real.clone(), rep);
            if expect_err {
                break;
            }
            want.extend(expected(&p, &Url::parse(&s.url(&real)).unwrap()));
        }
        let urls = [Url::parse(&i1).unwrap(), Url::parse(&i2).unwrap()];
        let db = PackageDB::new(&urls, &dir.path().join(format!("c{}", i % 7)), &forest, &store).unwrap();
        let pkg: PackageName = gens::respell(rng, &proj).as_str().try_into().unwrap();
        let got = run(|| {
            db.available_artifacts(&pkg).map(|m| {
                let sorted = m.keys().collect::<Vec<_>>();
                let desc = sorted.windows(2).all(|w| w[0] > w[1]);
                (m.values().flatten().cloned().collect::<Vec<_>>(), desc)
            })
        });
        c.case((&root, want.len()), !want.is_empty());
        c.count(if expect_err { "bad pages over http" } else { "pages over http" }, 1);
        match got {
            Out::Ok((ais, desc)) if !expect_err => {
                if let Some(d) = diff(&want, &observed(ais.iter())) {
                    c.violate("http-anchors", d);
                }
                if !desc {
                    c.violate("version-order", format!("{proj}"));
                }
                // a missing project has no files
                if run(|| db.artifacts_for_version(&"no-such-project".try_into().unwrap(), &"1.0".try_into().unwrap()).map(|a| a.len())).ok() != Some(0) {
                    c.violate("missing-project", "");
                }
            }
            Out::Err(_) if expect_err => {}
            o => c.violate("http-page", format!("expected {}: {}", if expect_err { "an error" } else { "files" }, o.map(|_| ()).describe())),
        }
    }
}

/// What a lookup says is what the index says now, whatever earlier answers allow caches to do.
fn changing(c: &mut Ctx, rng: &fastrand::Rng) {
    #[derive(Clone)]
    struct Now {
        reply: srv::Reply,
        etag: Option<String>,
        modified: Option<String>,
    }
    let pages: Arc<Mutex<BTreeMap<String, Now>>> = Default::default();
    let p2 = pages.clone();
    let unchanged = Arc::new(std::sync::atomic::AtomicU64::new(0));
    let u2 = unchanged.clone();
    let s = srv::Server::start(Arc::new(move |r: &srv::Req| {
        let Some(now) = p2.lock().unwrap().get(&r.target).cloned() else { return srv::Act::Reply(srv::Reply::new(404, "nope")) };
        let same = match (r.header("If-None-Match"), r.header("If-Modified-Since")) {
            (Some(t), _) => now.etag.is_some() && Some(t) == now.etag.as_deref(),
            (None, Some(t)) => now.modified.is_some() && Some(t) == now.modified.as_deref(),
            _ => false,
        };
        let mut rep = now.reply;
        if same {
            u2.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            rep.status = 304;
            rep.body.clear();
            rep.headers.retain(|(k, _)| k != "Content-Type");
        }
        srv::Act::Reply(rep)
    }));
    let dir = scratch();
    let forest = EnvForest::new(&dir.path().join("forest")).unwrap();
    let store = KVDirStore::new(&dir.path().join("build")).unwrap();
    for i in 0..c.n(60, 1500) {
        if !c.within(60, 900) {
            break;
        }
        let proj = gens::name(rng);
        let norm = crate::pep508::normalize(&proj);
        let idx = format!("/r{i}/");
        let at = format!("{idx}{norm}/");
        let mut log: Vec<String> = vec![];
        let mut shown: (Vec<Key>, bool) = (vec![], false); // files, an error
        let mut stamp = crate::c07::now() - 5_000_000;
        for step in 0..rng.usize(2..7) {
            if step == 0 || chance(rng, 75) {
                // the index changes
                stamp += rng.i64(1..100_000);
                let (mut heads, reuse) = crate::c07::cache_headers(rng);
                let (mut etag, mut modified) = (None, None);
                if rng.bool() {
                    etag = Some(format!("{}\"v{stamp}\"", *pick(rng, &["", "W/"])));
                    heads.push(("ETag".into(), etag.clone().unwrap()));
                }
                if rng.bool() {
                    modified = Some(crate::c07::http_date(stamp));
                    heads.push(("Last-Modified".into(), modified.clone().unwrap()));
                }
                let mut reply;
                let mut real = at.clone();
                pages.lock().unwrap().retain(|k, _| !k.starts_with(&idx));
                match rng.u8(0..10) {
                    0 | 1 => {
                        reply = srv::Reply::new(404, "not here");
                        shown = (vec![], false);
                    }
                    2 => {
                        reply = srv::Reply::new(*pick(rng, &[403, 410, 400, 451]), "no");
                        shown = (vec![], true);
                    }
                    k => {
                        if k == 3 {
                            real = format!("{idx}moved{stamp}/");
                        }
                        let p = page(rng, &proj);
                        reply = srv::Reply::html(&p.html);
                        shown = (expected(&p, &Url::parse(&s.url(&real)).unwrap()), false);
                    }
                }
                log.push(format!("{} at {real}, {} files, {heads:?}, {reuse:?}", reply.status, shown.0.len()));
                reply.headers.extend(heads.iter().cloned());
                let mut map = pages.lock().unwrap();
                if real != at {
                    let mut hop = srv::Reply::redirect(*pick(rng, &[301, 302, 308]), &real);
                    hop.headers.extend(heads.iter().filter(|h| h.0 != "ETag" && h.0 != "Last-Modified").cloned());
                    map.insert(at.clone(), Now { reply: hop, etag: None, modified: None });
                }
                map.insert(real, Now { reply, etag, modified });
            }
            let db = PackageDB::new(&[Url::parse(&s.url(&idx)).unwrap()], &dir.path().join("c"), &forest, &store).unwrap();
            let pkg: PackageName = proj.as_str().try_into().unwrap();
            let got = run(|| db.available_artifacts(&pkg).map(|m| m.values().flatten().cloned().collect::<Vec<_>>()));
            c.case((&at, step, log.len()), !shown.0.is_empty());
            c.count("lookups of changing indexes", 1);
            match (got, shown.1) {
                (Out::Ok(ais), false) => {
                    if let Some(d) = diff(&shown.0, &observed(ais.iter())) {
                        c.violate("stale-index", format!("{log:?}\nlookup {step}: {d}"));
                        return;
                    }
                }
                (Out::Err(_), true) => {}
                (o, e) => {
                    c.violate("changing-index", format!("{log:?}\nlookup {step}: expected {}: {}", if e { "an error" } else { "files" }, o.map(|_| ()).describe()));
                    return;
                }
            }
        }
    }
    c.count("index answers revalidated (304)", unchanged.load(std::sync::atomic::Ordering::SeqCst));
}
