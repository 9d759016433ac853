//! An independent PEP 508 reference: marker parser and evaluator (shares no code with posy).
use crate::pep440::{self, Op};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Var(String),
    Lit(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum M {
    And(Box<M>, Box<M>),
    Or(Box<M>, Box<M>),
    Cmp(String, Val, Val),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum R {
    T,
    F,
    Err,
    Unknown,
}

pub const VARS: [&str; 12] = [
    "python_version",
    "python_full_version",
    "os_name",
    "sys_platform",
    "platform_release",
    "platform_system",
    "platform_version",
    "platform_machine",
    "platform_python_implementation",
    "implementation_name",
    "implementation_version",
    "extra",
];
/// (accepted older spelling, modern name)
pub const OLD: [(&str, &str); 6] = [
    ("os.name", "os_name"),
    ("sys.platform", "sys_platform"),
    ("platform.version", "platform_version"),
    ("platform.machine", "platform_machine"),
    ("platform.python_implementation", "platform_python_implementation"),
    ("python_implementation", "platform_python_implementation"),
];

struct P<'a> {
    b: &'a [u8],
    i: usize,
    strict: bool, // words must be delimited
    extra: bool,
    depth: usize,
}

fn word(c: Option<&u8>) -> bool {
    c.map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.')
}

impl<'a> P<'a> {
    fn ws(&mut self) -> usize {
        let s = self.i;
        while matches!(self.b.get(self.i), Some(b' ' | b'\t')) {
            self.i += 1;
        }
        self.i - s
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.b[self.i..].starts_with(k.as_bytes()) {
            if self.strict
                && (word(self.b.get(self.i + k.len()))
                    || (self.i > 0 && word(self.b.get(self.i - 1))))
            {
                return false;
            }
            self.i += k.len();
            true
        } else {
            false
        }
    }
    fn val(&mut self) -> Option<Val> {
        self.ws();
        match self.b.get(self.i)? {
            q @ (b'"' | b'\'') => {
                let st = self.i + 1;
                let mut j = st;
                while j < self.b.len() && self.b[j] != *q {
                    if !(self.b[j] == b'\t' || (32..127).contains(&self.b[j])) || self.b[j] == b'\\' {
                        return None;
                    }
                    j += 1;
                }
                if j >= self.b.len() {
                    return None;
                }
                self.i = j + 1;
                Some(Val::Lit(String::from_utf8(self.b[st..j].to_vec()).ok()?))
            }
            _ => {
                // longest spelling wins
                let mut best: Option<(&str, &str)> = None;
                for (s, canon) in
                    VARS.iter().map(|v| (*v, *v)).chain(OLD.iter().map(|(a, b)| (*a, *b)))
                {
                    if self.b[self.i..].starts_with(s.as_bytes())
                        && best.map_or(true, |(t, _)| s.len() > t.len())
                    {
                        best = Some((s, canon));
                    }
                }
                let (s, canon) = best?;
                if canon == "extra" && !self.extra {
                    return None;
                }
                if !self.kw(s) {
                    return None;
                }
                Some(Val::Var(canon.into()))
            }
        }
    }
    fn op(&mut self) -> Option<String> {
        self.ws();
        for o in ["<=", "!=", "==", ">=", "~=", "<", ">"] {
            if self.b[self.i..].starts_with(o.as_bytes()) {
                self.i += o.len();
                return Some(o.into());
            }
        }
        if self.kw("in") {
            return Some("in".into());
        }
        if self.kw("not") {
            if self.ws() == 0 || !self.kw("in") {
                return None;
            }
            return Some("not in".into());
        }
        None
    }
    fn expr(&mut self) -> Option<M> {
        self.ws();
        if self.b.get(self.i) == Some(&b'(') {
            self.depth += 1;
            if self.depth > 200 {
                return None;
            }
            self.i += 1;
            let m = self.or()?;
            self.ws();
            if self.b.get(self.i) != Some(&b')') {
                return None;
            }
            self.i += 1;
            self.depth -= 1;
            return Some(m);
        }
        let l = self.val()?;
        let o = self.op()?;
        let r = self.val()?;
        Some(M::Cmp(o, l, r))
    }
    fn chain(&mut self, and: bool) -> Option<M> {
        let l = if and { self.expr()? } else { self.chain(true)? };
        let save = self.i;
        self.ws();
        if self.kw(if and { "and" } else { "or" }) {
            let r = self.chain(and)?;
            let (l, r) = (Box::new(l), Box::new(r));
            return Some(if and { M::And(l, r) } else { M::Or(l, r) });
        }
        self.i = save;
        Some(l)
    }
    fn or(&mut self) -> Option<M> {
        self.chain(false)
    }
}

fn parse1(s: &str, strict: bool, extra: bool) -> Option<M> {
    let mut p = P { b: s.as_bytes(), i: 0, strict, extra, depth: 0 };
    let m = p.or()?;
    if p.i == p.b.len() {
        Some(m)
    } else {
        None
    }
}

/// None: the text is in a corner the standards disagree about. Some(None): malformed.
pub fn parse(s: &str, extra: bool) -> Option<Option<M>> {
    if s.contains("===") || s.contains('\\') || !s.bytes().all(|c| c == b'\t' || (32..127).contains(&c)) {
        return None;
    }
    if s.ends_with([' ', '\t']) {
        return None;
    }
    let a = parse1(s, true, extra);
    let b = parse1(s, false, extra);
    if a == b {
        Some(a)
    } else {
        None
    }
}

pub fn normalize(s: &str) -> String {
    let mut out = String::new();
    let mut sep = false;
    for ch in s.chars() {
        if matches!(ch, '-' | '_' | '.') {
            if !sep {
                out.push('-');
            }
            sep = true;
        } else {
            out.push(ch.to_ascii_lowercase());
            sep = false;
        }
    }
    out
}

pub fn valid_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && b[0].is_ascii_alphanumeric()
        && b[b.len() - 1].is_ascii_alphanumeric()
        && b.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'-' | b'_' | b'.'))
}

fn cmp_op(o: &str) -> Op {
    pep440::OPS.into_iter().find(|x| x.s() == o).unwrap()
}

pub fn eval(m: &M, env: &HashMap<String, String>) -> R {
    match m {
        M::And(a, b) => match eval(a, env) {
            R::T => eval(b, env),
            x => x,
        },
        M::Or(a, b) => match eval(a, env) {
            R::F => eval(b, env),
            x => x,
        },
        M::Cmp(o, l, r) => {
            let get = |v: &Val| match v {
                Val::Lit(s) => Some(s.clone()),
                Val::Var(n) => env.get(n).cloned(),
            };
            let (Some(mut lv), Some(mut rv)) = (get(l), get(r)) else { return R::Err };
            let isx = |v: &Val| *v == Val::Var("extra".into());
            if isx(l) || isx(r) {
                if o != "==" && o != "!=" {
                    return R::Unknown;
                }
                if valid_name(&lv) {
                    lv = normalize(&lv);
                }
                if valid_name(&rv) {
                    rv = normalize(&rv);
                }
                if pep440::parse(&lv).is_some() {
                    return R::Unknown; // extras that look like versions: PEP 685 is silent
                }
            }
            let b = |x: bool| if x { R::T } else { R::F };
            match o.as_str() {
                "in" => b(rv.contains(&lv)),
                "not in" => b(!rv.contains(&lv)),
                _ => {
                    let op = cmp_op(o);
                    if let Some(lver) = pep440::parse(&lv) {
                        let t = rv.trim();
                        let (body, wild) = match t.strip_suffix(".*") {
                            Some(x) => (x, true),
                            None => (t, false),
                        };
                        if let Some(spec) = pep440::parse(body) {
                            if t != rv {
                                return R::Unknown;
                            }
                            match pep440::legal(op, &spec, wild) {
                                None => return R::Unknown,
                                Some(true) => {
                                    return match pep440::contains(op, &spec, wild, &lver) {
                                        Some(x) => b(x),
                                        None => R::Unknown,
                                    }
                                }
                                Some(false) => {}
                            }
                        }
                    }
                    match op {
                        Op::Eq => b(lv == rv),
                        Op::Ne => b(lv != rv),
                        Op::Le => b(lv <= rv),
                        Op::Ge => b(lv >= rv),
                        Op::Lt => b(lv < rv),
                        Op::Gt => b(lv > rv),
                        Op::Compat => R::Err,
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- generation

use crate::common::{chance, pick};

pub const LITS: [&str; 34] = [
    "3", "3.8", "3.10", "3.10.0", "2.7", "3.7.*", "3.*", "3.11.0rc1", "3.10.4+local", "linux", "win32",
    "darwin", "posix", "nt", "java", "x86_64", "aarch64", "CPython", "cpython", "PyPy", "",
    "5.15.0-91-generic", "5.15.0", "2.7 3.4 3.10", "lin", "Linux", "a b", "it's", "say \"hi\"", "1.0",
    "3.10.post1", "#1 SMP", "test", "Foo.Bar",
];

pub fn quote(rng: &fastrand::Rng, s: &str) -> String {
    if s.contains('"') || (!s.contains('\'') && rng.bool()) {
        format!("'{s}'")
    } else {
        format!("\"{s}\"")
    }
}

pub fn sp(rng: &fastrand::Rng) -> &'static str {
    *pick(rng, &["", " ", " ", " ", "  ", "\t", " \t "])
}
fn sp1(rng: &fastrand::Rng) -> &'static str {
    *pick(rng, &[" ", " ", "  ", "\t"])
}

fn gen_val(rng: &fastrand::Rng, extra: bool, vars: u32) -> String {
    if chance(rng, vars) {
        if chance(rng, 12) {
            return pick(rng, &OLD).0.into();
        }
        loop {
            let v = *pick(rng, &VARS);
            if v != "extra" || extra {
                return v.into();
            }
        }
    }
    if chance(rng, 25) {
        let g = pep440::Gen { rng };
        return quote(rng, &g.version(true).canonical());
    }
    quote(rng, *pick(rng, &LITS))
}

/// A well-formed marker expression (unless a deliberately illegal spelling sneaks in).
pub fn gen_marker(rng: &fastrand::Rng, extra: bool, depth: usize) -> String {
    if depth > 0 && chance(rng, 60) {
        let k = *pick(rng, &["and", "or"]);
        let n = rng.usize(2..4);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s += sp1(rng);
                s += k;
                s += sp1(rng);
            }
            s += &gen_marker(rng, extra, depth - 1);
        }
        if rng.bool() {
            s = format!("({}{s}{})", sp(rng), sp(rng));
        }
        return s;
    }
    let l = gen_val(rng, extra, 55);
    let r = gen_val(rng, extra, if l.contains(['"', '\'']) { 75 } else { 12 });
    let o = *pick(rng, &["==", "!=", "<=", ">=", "<", ">", "~=", "in", "not in", "==", ">=", "not  in"]);
    let (a, b) = if o.contains("in") { (sp1(rng), sp1(rng)) } else { (sp(rng), sp(rng)) };
    let s = format!("{l}{a}{o}{b}{r}");
    if chance(rng, 15) {
        format!("{}({}{s}{})", sp(rng), sp(rng), sp(rng))
    } else {
        s
    }
}

pub fn gen_env(rng: &fastrand::Rng, missing: bool) -> HashMap<String, String> {
    let mut e = HashMap::new();
    let pyv: Vec<&str> = vec!["3.10", "3.8", "2.7", "3.11", "3.7"];
    let full: Vec<&str> = vec!["3.10.4", "3.8.0", "2.7.18", "3.11.0rc1", "3.7.16+", "3.10.0"];
    for v in VARS {
        if v == "extra" {
            continue;
        }
        if missing && chance(rng, 20) {
            continue;
        }
        let val = match v {
            "python_version" => pick(rng, &pyv).to_string(),
            "python_full_version" => pick(rng, &full).to_string(),
            "os_name" => pick(rng, &["posix", "nt", "java"]).to_string(),
            "sys_platform" => pick(rng, &["linux", "win32", "darwin", "linux2"]).to_string(),
            "platform_release" => {
                pick(rng, &["5.15.0-91-generic", "5.15.0", "10", "", "22.1.0"]).to_string()
            }
            "platform_system" => pick(rng, &["Linux", "Windows", "Darwin"]).to_string(),
            "platform_version" => pick(rng, &["#1 SMP", "10.0.19041", ""]).to_string(),
            "platform_machine" => pick(rng, &["x86_64", "aarch64", "AMD64"]).to_string(),
            "platform_python_implementation" => pick(rng, &["CPython", "PyPy"]).to_string(),
            "implementation_name" => pick(rng, &["cpython", "pypy"]).to_string(),
            _ => pick(rng, &["3.10.4", "7.3.11", "3.11.0rc1"]).to_string(),
        };
        e.insert(v.to_string(), val);
    }
    if !missing || rng.bool() {
        e.insert("extra".into(), normalize(*pick(rng, &["", "test", "foo-bar", "docs", "lin"])));
    }
    e
}

pub fn mutate(rng: &fastrand::Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..rng.usize(1..3) {
        if c.is_empty() {
            break;
        }
        let i = rng.usize(..c.len());
        match rng.u8(0..5) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *pick(rng, &['(', ')', '\'', '"', ' ', 'a', '=', '<', ',', '.', '1', '_', ';', '!', '~'])),
            2 => {
                let j = (i + rng.usize(1..8)).min(c.len());
                c.drain(i..j);
            }
            3 => {
                let j = (i + rng.usize(1..8)).min(c.len());
                let part: Vec<char> = c[i..j].to_vec();
                for (k, ch) in part.into_iter().enumerate() {
                    c.insert(i + k, ch);
                }
            }
            _ => {
                let w = *pick(rng, &[" and ", " or ", "()", " not ", " in ", "and", "or", "extra", " == '3'", "not"]);
                for (k, ch) in w.chars().enumerate() {
                    c.insert(i + k, ch);
                }
            }
        }
    }
    c.into_iter().collect()
}
