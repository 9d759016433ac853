//! An independent PEP 440 reference: written from the specification, sharing no code with
//! posy or the `pep440` crate (cross-checked against Python's `packaging` by
//! tools/cross_check.py).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Num(u128),
    Str(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct V {
    pub epoch: u128,
    pub release: Vec<u128>,
    pub pre: Option<(char, u128)>, // 'a', 'b', 'c'
    pub post: Option<u128>,
    pub dev: Option<u128>,
    pub local: Vec<Seg>,
}

impl V {
    pub fn public(&self) -> V {
        V { local: vec![], ..self.clone() }
    }
    pub fn is_prerelease(&self) -> bool {
        self.pre.is_some() || self.dev.is_some()
    }
    pub fn trimmed(&self) -> Vec<u128> {
        let mut r = self.release.clone();
        while r.len() > 1 && *r.last().unwrap() == 0 {
            r.pop();
        }
        r
    }
    pub fn same_base(&self, o: &V) -> bool {
        self.epoch == o.epoch && self.trimmed() == o.trimmed()
    }
    pub fn canonical(&self) -> String {
        let mut s = String::new();
        if self.epoch != 0 {
            s += &format!("{}!", self.epoch);
        }
        s += &self.release.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(".");
        if let Some((k, n)) = self.pre {
            s += &format!("{}{}", if k == 'c' { "rc".to_string() } else { k.to_string() }, n);
        }
        if let Some(n) = self.post {
            s += &format!(".post{n}");
        }
        if let Some(n) = self.dev {
            s += &format!(".dev{n}");
        }
        if !self.local.is_empty() {
            s += "+";
            s += &self
                .local
                .iter()
                .map(|x| match x {
                    Seg::Num(n) => n.to_string(),
                    Seg::Str(s) => s.clone(),
                })
                .collect::<Vec<_>>()
                .join(".");
        }
        s
    }

    /// Another spelling of the same version.
    pub fn respell(&self, rng: &fastrand::Rng) -> String {
        let mut s = String::new();
        if rng.u8(0..8) == 0 {
            s += "v";
        }
        if self.epoch != 0 || rng.u8(0..10) == 0 {
            s += &format!("{}!", self.epoch);
        }
        let num = |n: u128| {
            if rng.u8(0..8) == 0 {
                format!("0{n}")
            } else {
                n.to_string()
            }
        };
        s += &self.release.iter().map(|n| num(*n)).collect::<Vec<_>>().join(".");
        for _ in 0..[0, 0, 0, 1, 2][rng.usize(0..5)] {
            s += ".0";
        }
        let sep = || ["", ".", "-", "_"][rng.usize(0..4)];
        if let Some((k, n)) = self.pre {
            s += sep();
            s += match k {
                'a' => ["a", "alpha", "A", "Alpha"][rng.usize(0..4)],
                'b' => ["b", "beta", "B", "BETA"][rng.usize(0..4)],
                _ => ["rc", "c", "pre", "preview", "RC"][rng.usize(0..5)],
            };
            if n != 0 || rng.bool() {
                s += sep();
                s += &num(n);
            }
        }
        if let Some(n) = self.post {
            if rng.u8(0..4) == 0 {
                s += &format!("-{n}");
            } else {
                s += sep();
                s += ["post", "rev", "r", "POST"][rng.usize(0..4)];
                if n != 0 || rng.bool() {
                    s += sep();
                    s += &num(n);
                }
            }
        }
        if let Some(n) = self.dev {
            s += sep();
            s += ["dev", "DEV", "Dev"][rng.usize(0..3)];
            if n != 0 || rng.bool() {
                s += sep();
                s += &num(n);
            }
        }
        if !self.local.is_empty() {
            s += "+";
            for (i, x) in self.local.iter().enumerate() {
                if i > 0 {
                    s += [".", "-", "_"][rng.usize(0..3)];
                }
                match x {
                    Seg::Num(n) => s += &n.to_string(),
                    Seg::Str(t) => {
                        if rng.bool() {
                            s += &t.to_uppercase()
                        } else {
                            s += t
                        }
                    }
                }
            }
        }
        s
    }
}

fn cmp_release(a: &V, b: &V) -> Ordering {
    a.trimmed().cmp(&b.trimmed())
}

// -1 = minus infinity, 0 = value, 1 = plus infinity
fn pre_key(v: &V) -> (i8, char, u128) {
    match v.pre {
        Some((k, n)) => (0, k, n),
        None if v.post.is_none() && v.dev.is_some() => (-1, ' ', 0),
        None => (1, ' ', 0),
    }
}

fn seg_cmp(a: &Seg, b: &Seg) -> Ordering {
    match (a, b) {
        (Seg::Num(a), Seg::Num(b)) => a.cmp(b),
        (Seg::Str(a), Seg::Str(b)) => a.cmp(b),
        (Seg::Num(_), Seg::Str(_)) => Ordering::Greater,
        (Seg::Str(_), Seg::Num(_)) => Ordering::Less,
    }
}

pub fn cmp(a: &V, b: &V) -> Ordering {
    a.epoch
        .cmp(&b.epoch)
        .then_with(|| cmp_release(a, b))
        .then_with(|| pre_key(a).cmp(&pre_key(b)))
        .then_with(|| match (a.post, b.post) {
            (None, None) => Ordering::Equal,
            (None, Some(_)) => Ordering::Less,
            (Some(_), None) => Ordering::Greater,
            (Some(x), Some(y)) => x.cmp(&y),
        })
        .then_with(|| match (a.dev, b.dev) {
            (None, None) => Ordering::Equal,
            (None, Some(_)) => Ordering::Greater,
            (Some(_), None) => Ordering::Less,
            (Some(x), Some(y)) => x.cmp(&y),
        })
        .then_with(|| {
            let mut i = 0;
            loop {
                match (a.local.get(i), b.local.get(i)) {
                    (None, None) => return Ordering::Equal,
                    (None, Some(_)) => return Ordering::Less,
                    (Some(_), None) => return Ordering::Greater,
                    (Some(x), Some(y)) => match seg_cmp(x, y) {
                        Ordering::Equal => i += 1,
                        o => return o,
                    },
                }
            }
        })
}

/// Hand-written parser for the PEP 440 grammar (no surrounding whitespace).
pub fn parse(input: &str) -> Option<V> {
    let s = input.to_ascii_lowercase();
    if !s.is_ascii() {
        return None;
    }
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = V::default();
    fn num(b: &[u8], i: &mut usize) -> Option<u128> {
        let st = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        if st == *i {
            None
        } else {
            std::str::from_utf8(&b[st..*i]).ok()?.parse().ok()
        }
    }
    if b.get(0) == Some(&b'v') {
        i += 1;
    }
    let first = num(b, &mut i)?;
    if b.get(i) == Some(&b'!') {
        i += 1;
        v.epoch = first;
        v.release.push(num(b, &mut i)?);
    } else {
        v.release.push(first);
    }
    while b.get(i) == Some(&b'.') && b.get(i + 1).map_or(false, |c| c.is_ascii_digit()) {
        i += 1;
        v.release.push(num(b, &mut i)?);
    }
    let is_sep = |c: Option<&u8>| matches!(c, Some(b'.') | Some(b'-') | Some(b'_'));
    // tries [sep] word [sep num?]; returns number
    let tagged = |i: &mut usize, words: &[&str]| -> Option<(usize, u128)> {
        let mut j = *i;
        if is_sep(b.get(j)) {
            j += 1;
        }
        let (w, word) = words
            .iter()
            .enumerate()
            .filter(|(_, w)| s[j..].starts_with(**w))
            .max_by_key(|(_, w)| w.len())?;
        j += word.len();
        // [-_.]? then number?: the separator may also stand alone ("1.0a." is invalid in
        // practice because nothing can follow it, except e.g. "1.0a.post1")
        let mut k = j;
        if is_sep(b.get(k)) {
            k += 1;
        }
        if let Some(n) = num(b, &mut k) {
            *i = k;
            return Some((w, n));
        }
        *i = j;
        Some((w, 0))
    };
    if let Some((w, n)) =
        tagged(&mut i, &["alpha", "a", "beta", "b", "preview", "pre", "rc", "c"])
    {
        v.pre = Some((['a', 'a', 'b', 'b', 'c', 'c', 'c', 'c'][w], n));
    }
    if b.get(i) == Some(&b'-') && b.get(i + 1).map_or(false, |c| c.is_ascii_digit()) {
        i += 1;
        v.post = num(b, &mut i);
    } else if let Some((_, n)) = tagged(&mut i, &["post", "rev", "r"]) {
        v.post = Some(n);
    }
    if let Some((_, n)) = tagged(&mut i, &["dev"]) {
        v.dev = Some(n);
    }
    if b.get(i) == Some(&b'+') {
        i += 1;
        loop {
            let st = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() {
                i += 1;
            }
            if st == i {
                return None;
            }
            let t = &s[st..i];
            v.local.push(match t.parse::<u128>() {
                Ok(n) if t.bytes().all(|c| c.is_ascii_digit()) => Seg::Num(n),
                _ => Seg::Str(t.into()),
            });
            if is_sep(b.get(i)) {
                i += 1;
            } else {
                break;
            }
        }
    }
    if i == b.len() {
        Some(v)
    } else {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Eq,
    Ne,
    Le,
    Ge,
    Lt,
    Gt,
    Compat,
}
pub const OPS: [Op; 7] = [Op::Eq, Op::Ne, Op::Le, Op::Ge, Op::Lt, Op::Gt, Op::Compat];

impl Op {
    pub fn s(&self) -> &'static str {
        match self {
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Le => "<=",
            Op::Ge => ">=",
            Op::Lt => "<",
            Op::Gt => ">",
            Op::Compat => "~=",
        }
    }
}

/// Is `op spec[.*]` a legal specifier? None: left open by the standard's wording.
pub fn legal(op: Op, spec: &V, wildcard: bool) -> Option<bool> {
    if wildcard {
        if !matches!(op, Op::Eq | Op::Ne) {
            return Some(false);
        }
        if spec.dev.is_some() || !spec.local.is_empty() {
            return Some(false);
        }
        if spec.pre.is_some() || spec.post.is_some() {
            return None;
        }
        return Some(true);
    }
    if !spec.local.is_empty() && !matches!(op, Op::Eq | Op::Ne) {
        return Some(false);
    }
    if op == Op::Compat && spec.release.len() < 2 {
        return Some(false);
    }
    Some(true)
}

fn prefix_match(release: &[u128], epoch: u128, v: &V) -> bool {
    if v.epoch != epoch {
        return false;
    }
    release.iter().enumerate().all(|(i, n)| v.release.get(i).copied().unwrap_or(0) == *n)
}

/// Does `v` satisfy `op spec[.*]`? None: the standard's text and its reference
/// implementation disagree, or the text leaves it open.
pub fn contains(op: Op, spec: &V, wildcard: bool, v: &V) -> Option<bool> {
    use Ordering::*;
    if legal(op, spec, wildcard) == Some(false) {
        return None;
    }
    let vp = v.public();
    Some(match op {
        Op::Eq | Op::Ne => {
            let eq = if wildcard && (spec.pre.is_some() || spec.post.is_some()) {
                // "X.postN.*", "XaN.*": prefix of the segments that follow the release
                let release = |v: &V| {
                    let mut r = v.release.clone();
                    while r.last() == Some(&0) {
                        r.pop();
                    }
                    r
                };
                v.epoch == spec.epoch
                    && release(v) == release(spec)
                    && v.pre == spec.pre
                    && (spec.post.is_none() || v.post == spec.post)
            } else if wildcard {
                prefix_match(&spec.release, spec.epoch, v)
            } else if spec.local.is_empty() {
                cmp(&vp, spec) == Equal
            } else {
                cmp(v, spec) == Equal
            };
            eq == (op == Op::Eq)
        }
        Op::Le => cmp(&vp, spec) != Greater,
        Op::Ge => cmp(&vp, spec) != Less,
        Op::Compat => {
            cmp(&vp, spec) != Less
                && prefix_match(&spec.release[..spec.release.len() - 1], spec.epoch, v)
        }
        Op::Lt => {
            if cmp(v, spec) != Less {
                false
            } else if spec.is_prerelease() || !v.is_prerelease() || !v.same_base(spec) {
                true
            } else if spec.post.is_none() {
                false
            } else if v.pre.is_none() && v.post == spec.post {
                false // 1.0.post1.devN is a pre-release of 1.0.post1
            } else {
                return None;
            }
        }
        Op::Gt => {
            if cmp(v, spec) != Greater {
                false
            } else if cmp(&vp, spec) == Equal {
                false // local version of the given version
            } else if !v.same_base(spec) || spec.post.is_some() {
                if v.same_base(spec) && !v.local.is_empty() {
                    return None;
                }
                true
            } else if v.post.is_some() {
                if spec.dev.is_none() && v.pre == spec.pre {
                    false // post-release of the given version
                } else {
                    return None;
                }
            } else if !v.local.is_empty() {
                return None;
            } else {
                true
            }
        }
    })
}

pub struct Gen<'a> {
    pub rng: &'a fastrand::Rng,
}

impl<'a> Gen<'a> {
    fn small(&self) -> u128 {
        *crate::common::pick(self.rng, &[0, 0, 1, 1, 2, 3, 9, 10, 11])
    }
    pub fn version(&self, local: bool) -> V {
        let r = self.rng;
        let mut v = V::default();
        if r.u8(0..12) == 0 {
            v.epoch = r.u128(1..3);
        }
        for _ in 0..r.usize(1..4) {
            v.release.push(self.small());
        }
        if r.u8(0..3) == 0 {
            v.pre = Some((['a', 'b', 'c'][r.usize(0..3)], self.small()));
        }
        if r.u8(0..4) == 0 {
            v.post = Some(self.small());
        }
        if r.u8(0..4) == 0 {
            v.dev = Some(self.small());
        }
        if local && r.u8(0..5) == 0 {
            v.local = self.local();
        }
        v
    }
    pub fn local(&self) -> Vec<Seg> {
        let r = self.rng;
        (0..r.usize(1..3))
            .map(|_| {
                if r.bool() {
                    Seg::Num(r.u128(0..3))
                } else {
                    Seg::Str(["abc", "xyz", "0a", "ubuntu", "a"][r.usize(0..5)].into())
                }
            })
            .collect()
    }
    /// A version close to `v` (boundary cases).
    pub fn near(&self, v: &V) -> V {
        let r = self.rng;
        let mut w = v.clone();
        for _ in 0..r.usize(0..3) {
            match r.u8(0..11) {
                0 => w.pre = None,
                1 => w.pre = Some((['a', 'b', 'c'][r.usize(0..3)], self.small())),
                2 => w.post = None,
                3 => w.post = Some(w.post.unwrap_or(0) + r.u128(0..2)),
                4 => w.dev = None,
                5 => w.dev = Some(w.dev.unwrap_or(0) + r.u128(0..2)),
                6 => {
                    w.release.push(self.small());
                    w.release.truncate(5);
                }
                7 => {
                    if w.release.len() > 1 {
                        w.release.pop();
                    }
                }
                8 => {
                    let i = r.usize(0..w.release.len());
                    let n = w.release[i];
                    w.release[i] = if r.bool() { n + 1 } else { n.saturating_sub(1) };
                }
                9 => w.local = self.local(),
                _ => w.local = vec![],
            }
        }
        w
    }
}
