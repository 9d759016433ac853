//! Minimal zip and tar.gz writers with full control over member names, kinds and modes.
use std::io::Write;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum K {
    File,
    Dir,
    Symlink,
    Hardlink,
    Char,
    Block,
    Fifo,
    /// some other tar type flag
    Raw(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct M {
    pub name: Vec<u8>,
    pub kind: K,
    /// file contents, or link target
    pub data: Vec<u8>,
    pub mode: u32,
    pub deflate: bool,
    /// zip only: "version made by" host (3 = unix, 0 = dos)
    pub host: u8,
    pub utf8: bool,
}

impl M {
    pub fn file(name: &str, data: impl AsRef<[u8]>) -> M {
        M {
            name: name.as_bytes().to_vec(),
            kind: K::File,
            data: data.as_ref().to_vec(),
            mode: 0o644,
            deflate: true,
            host: 3,
            utf8: !name.is_ascii(),
        }
    }
    pub fn dir(name: &str) -> M {
        M { kind: K::Dir, mode: 0o755, ..M::file(name, "") }
    }
    pub fn link(name: &str, target: &str) -> M {
        M { kind: K::Symlink, mode: 0o777, ..M::file(name, target) }
    }
    pub fn exec(mut self) -> M {
        self.mode = 0o755;
        self
    }
    pub fn mode(mut self, m: u32) -> M {
        self.mode = m;
        self
    }
    pub fn stored(mut self) -> M {
        self.deflate = false;
        self
    }
}

fn crc(data: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(data);
    c.sum()
}

pub fn zip_bytes(members: &[M]) -> Vec<u8> {
    let mut out = vec![];
    let mut central = vec![];
    for m in members {
        let off = out.len() as u32;
        let data: &[u8] = if m.kind == K::Dir { b"" } else { &m.data };
        let (method, body) = if m.deflate && m.kind == K::File {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
            e.write_all(data).unwrap();
            (8u16, e.finish().unwrap())
        } else {
            (0u16, data.to_vec())
        };
        let fmt: u32 = match m.kind {
            K::File | K::Hardlink | K::Raw(_) => 0o100000,
            K::Dir => 0o040000,
            K::Symlink => 0o120000,
            K::Char => 0o020000,
            K::Block => 0o060000,
            K::Fifo => 0o010000,
        };
        let attr = if m.host == 3 {
            ((fmt | m.mode) << 16) | if m.kind == K::Dir { 0x10 } else { 0 }
        } else if m.kind == K::Dir {
            0x10
        } else {
            0
        };
        let flags: u16 = if m.utf8 { 0x800 } else { 0 };
        let mut common = vec![];
        common.extend(20u16.to_le_bytes());
        common.extend(flags.to_le_bytes());
        common.extend(method.to_le_bytes());
        common.extend([0, 0, 0x21, 0x50]);
        common.extend(crc(data).to_le_bytes());
        common.extend((body.len() as u32).to_le_bytes());
        common.extend((data.len() as u32).to_le_bytes());
        common.extend((m.name.len() as u16).to_le_bytes());
        common.extend(0u16.to_le_bytes());
        out.extend(0x04034b50u32.to_le_bytes());
        out.extend(&common);
        out.extend(&m.name);
        out.extend(&body);
        central.extend(0x02014b50u32.to_le_bytes());
        central.extend([20, m.host]);
        central.extend(&common);
        central.extend(0u16.to_le_bytes()); // comment
        central.extend(0u16.to_le_bytes()); // disk
        central.extend(0u16.to_le_bytes()); // internal
        central.extend(attr.to_le_bytes());
        central.extend(off.to_le_bytes());
        central.extend(&m.name);
    }
    let cstart = out.len() as u32;
    let clen = central.len() as u32;
    out.extend(&central);
    out.extend(0x06054b50u32.to_le_bytes());
    out.extend([0; 4]);
    out.extend((members.len() as u16).to_le_bytes());
    out.extend((members.len() as u16).to_le_bytes());
    out.extend(clen.to_le_bytes());
    out.extend(cstart.to_le_bytes());
    out.extend(0u16.to_le_bytes());
    out
}

fn octal(buf: &mut [u8], v: u64) {
    let n = buf.len();
    let s = format!("{v:0w$o}\0", w = n - 1);
    buf.copy_from_slice(&s.as_bytes()[s.len() - n..]);
}

fn tar_header(out: &mut Vec<u8>, name: &[u8], flag: u8, mode: u32, size: u64, link: &[u8]) {
    let mut h = [0u8; 512];
    let n = name.len().min(100);
    h[..n].copy_from_slice(&name[..n]);
    octal(&mut h[100..108], mode as u64);
    octal(&mut h[108..116], 0);
    octal(&mut h[116..124], 0);
    octal(&mut h[124..136], size);
    octal(&mut h[136..148], 1_600_000_000);
    h[148..156].copy_from_slice(b"        ");
    h[156] = flag;
    let l = link.len().min(100);
    h[157..157 + l].copy_from_slice(&link[..l]);
    h[257..265].copy_from_slice(b"ustar  \0");
    let sum: u64 = h.iter().map(|b| *b as u64).sum();
    h[148..156].copy_from_slice(format!("{sum:06o}\0 ").as_bytes());
    out.extend(h);
}

fn pad(out: &mut Vec<u8>) {
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

/// GNU-style tar (long names and long links as 'L'/'K' records).
pub fn tar_bytes(members: &[M]) -> Vec<u8> {
    let mut out = vec![];
    for m in members {
        let (flag, size, link): (u8, usize, &[u8]) = match m.kind {
            K::File => (b'0', m.data.len(), b""),
            K::Dir => (b'5', 0, b""),
            K::Symlink => (b'2', 0, &m.data),
            K::Hardlink => (b'1', 0, &m.data),
            K::Char => (b'3', 0, b""),
            K::Block => (b'4', 0, b""),
            K::Fifo => (b'6', 0, b""),
            K::Raw(f) => (f, m.data.len(), b""),
        };
        if m.name.len() > 100 {
            tar_header(&mut out, b"././@LongLink", b'L', 0, m.name.len() as u64 + 1, b"");
            out.extend(&m.name);
            out.push(0);
            pad(&mut out);
        }
        if link.len() > 100 {
            tar_header(&mut out, b"././@LongLink", b'K', 0, link.len() as u64 + 1, b"");
            out.extend(link);
            out.push(0);
            pad(&mut out);
        }
        tar_header(&mut out, &m.name, flag, m.mode, size as u64, link);
        if size > 0 {
            out.extend(&m.data);
            pad(&mut out);
        }
    }
    out.extend([0u8; 1024]);
    out
}

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::fast());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn targz_bytes(members: &[M]) -> Vec<u8> {
    gz(&tar_bytes(members))
}

/// A small valid wheel: (dist-info style name, version, extra METADATA lines, extra members)
pub fn wheel_bytes(dist: &str, version: &str, meta: &str, extra: &[M]) -> Vec<u8> {
    zip_bytes(&wheel_members(dist, version, meta, extra))
}

pub fn wheel_members(dist: &str, version: &str, meta: &str, extra: &[M]) -> Vec<M> {
    let di = format!("{}-{}.dist-info", dist.replace('-', "_"), version);
    let mut v = extra.to_vec();
    v.push(M::file(
        &format!("{di}/WHEEL"),
        "Wheel-Version: 1.0\nGenerator: t\nRoot-Is-Purelib: true\nTag: py3-none-any\n",
    ));
    v.push(M::file(
        &format!("{di}/METADATA"),
        format!("Metadata-Version: 2.1\nName: {dist}\nVersion: {version}\n{meta}\n"),
    ));
    v.push(M::file(&format!("{di}/RECORD"), ""));
    v
}
