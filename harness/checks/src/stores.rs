//! Self-describing values for the store monitors: what is read tells which write it came
//! from, and whether it is complete.
use std::io::Write;
use std::path::Path;

/// the bytes of value `id`: a header naming id and length, then a stream derived from id
pub fn value(id: u64) -> Vec<u8> {
    let rng = fastrand::Rng::with_seed(id ^ 0x5eed);
    let len = match rng.u8(0..8) {
        0 => 0,
        1 => rng.usize(1..40),
        2 => 8192,
        3 => rng.usize(20_000..90_000),
        _ => rng.usize(40..6000),
    };
    let mut v = format!("VALUE {id} {len}\n").into_bytes();
    v.extend((0..len).map(|_| rng.u8(..)));
    v
}

/// Some(id) if `b` is exactly the bytes of value id
pub fn which(b: &[u8]) -> Result<u64, String> {
    let head = b.iter().position(|c| *c == b'\n').map(|i| &b[..i]);
    let id = head
        .and_then(|h| std::str::from_utf8(h).ok())
        .and_then(|h| h.strip_prefix("VALUE "))
        .and_then(|h| h.split(' ').next())
        .and_then(|h| h.parse::<u64>().ok());
    match id {
        Some(id) if value(id) == b => Ok(id),
        Some(id) => Err(format!("{} bytes, not the {} of value {id}", b.len(), value(id).len())),
        None => Err(format!("{} bytes of no known value", b.len())),
    }
}

/// Write `b` in pieces, pausing sometimes.
pub fn dribble(w: &mut dyn Write, b: &[u8], rng: &fastrand::Rng, pause_us: u64) -> std::io::Result<()> {
    let n = rng.usize(1..5);
    for c in b.chunks(b.len() / n + 1) {
        w.write_all(c)?;
        if pause_us > 0 && rng.bool() {
            std::thread::sleep(std::time::Duration::from_micros(rng.u64(0..pause_us)));
        }
    }
    Ok(())
}

/// Fill `dir` with the tree of value `id`; `upto` of its files if given.
pub fn fill(dir: &Path, id: u64, upto: Option<usize>, mut between: impl FnMut()) -> std::io::Result<usize> {
    let rng = fastrand::Rng::with_seed(id ^ 0xd1d);
    let n = rng.usize(1..7);
    let files = upto.unwrap_or(n).min(n);
    for i in 0..files {
        let sub = if i % 2 == 1 { dir.join(format!("sub{}", i % 3)).join("deeper") } else { dir.to_path_buf() };
        std::fs::create_dir_all(&sub)?;
        std::fs::write(sub.join(format!("f{i}")), value(id * 10 + i as u64))?;
        between();
    }
    if files == n {
        std::fs::write(dir.join("NAME"), format!("{id} {n}"))?;
    }
    Ok(n)
}

/// Which complete value does this directory hold?
pub fn which_dir(dir: &Path) -> Result<u64, String> {
    let name = std::fs::read_to_string(dir.join("NAME")).map_err(|e| format!("{}: incomplete ({e})", dir.display()))?;
    let (id, n) = name.split_once(' ').ok_or("bad NAME")?;
    let (id, n): (u64, usize) = (id.parse().map_err(|_| "bad NAME")?, n.parse().map_err(|_| "bad NAME")?);
    let mut seen = 0;
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).map_err(|e| e.to_string())? {
            let e = e.map_err(|e| e.to_string())?;
            if e.file_type().map_err(|e| e.to_string())?.is_dir() {
                todo.push(e.path());
                continue;
            }
            let f = e.file_name().to_string_lossy().into_owned();
            if f == "NAME" {
                continue;
            }
            let i: u64 = f.strip_prefix('f').and_then(|i| i.parse().ok()).ok_or(format!("foreign file {f}"))?;
            match which(&std::fs::read(e.path()).map_err(|e| e.to_string())?) {
                Ok(v) if v == id * 10 + i => seen += 1,
                Ok(v) => return Err(format!("value {id} holds file {f} of value {}", v / 10)),
                Err(m) => return Err(format!("value {id}, file {f}: {m}")),
            }
        }
    }
    if seen != n {
        return Err(format!("value {id}: {seen} of {n} files"));
    }
    Ok(id)
}

pub fn now() -> u64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
