//! The reference model of where archive members belong: lexical paths, and the layout of
//! wheels. Independent of posy's own path type.

/// `Some(pieces)` when the name stays inside the archive root, `None` when it is absolute
/// or climbs out on the way.
pub fn norm(name: &[u8]) -> Option<Vec<Vec<u8>>> {
    if name.starts_with(b"/") {
        return None;
    }
    let mut out: Vec<Vec<u8>> = vec![];
    for p in name.split(|b| *b == b'/') {
        match p {
            b"" | b"." => {}
            b".." => {
                out.pop()?;
            }
            p => out.push(p.to_vec()),
        }
    }
    Some(out)
}

/// Lexical normal form of a link target; `None` when, seen from a link at `source`, it is
/// absolute or climbs out of the root on the way.
pub fn link_inside(source: &[Vec<u8>], target: &[u8]) -> bool {
    if target.starts_with(b"/") || source.is_empty() {
        return false;
    }
    let mut depth = source.len() as i64 - 1;
    for p in target.split(|b| *b == b'/') {
        match p {
            b"" | b"." => {}
            b".." => {
                depth -= 1;
                if depth < 0 {
                    return false;
                }
            }
            _ => depth += 1,
        }
    }
    true
}

pub fn join(p: &[Vec<u8>]) -> Vec<u8> {
    p.join(&b'/')
}

/// Where a wheel member goes, given the four installation directories; the flag says
/// whether it is a script. `None`: nowhere (a bare directory of the layout itself) or the
/// category is not one we know.
pub fn wheel_place(
    pieces: &[Vec<u8>],
    data_dir: &str,
    root_is_purelib: bool,
    dirs: &std::collections::HashMap<String, String>,
) -> Option<(Vec<Vec<u8>>, bool)> {
    let (cat, rest) = if pieces.first().map(|p| &p[..]) == Some(data_dir.as_bytes()) {
        (String::from_utf8_lossy(pieces.get(1)?).into_owned(), &pieces[2..])
    } else {
        ((if root_is_purelib { "purelib" } else { "platlib" }).to_string(), pieces)
    };
    let base = dirs.get(&cat)?;
    let mut p = norm(base.as_bytes())?;
    p.extend(rest.iter().cloned());
    Some((p, cat == "scripts"))
}
