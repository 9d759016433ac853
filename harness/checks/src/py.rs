//! Interpreters that really run (the system's Python behind a pybi's face) and source
//! packages whose backend does what its plan says and logs what it saw.
use crate::arch::*;
use crate::common::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct Py {
    pub exe: String,
    pub site_py: Vec<u8>,
}

pub fn py() -> &'static Py {
    static PY: OnceLock<Py> = OnceLock::new();
    PY.get_or_init(|| {
        let out = std::process::Command::new("python3")
            .args(["-X", "frozen_modules=off", "-c", "import sys, site; print(sys.executable); print(site.__file__)"])
            .output()
            .expect("python3");
        let text = String::from_utf8(out.stdout).unwrap();
        let mut l = text.lines();
        let exe = l.next().expect("python3 says nothing").to_string();
        let site = l.next().unwrap();
        // without the packages of the system
        let text = std::fs::read_to_string(site).unwrap();
        let own = text.replace("\nPREFIXES = [sys.prefix, sys.exec_prefix]\n", "\nPREFIXES = []\n");
        assert_ne!(text, own, "site.py has no PREFIXES");
        Py { exe, site_py: own.into_bytes() }
    })
}

/// Where a pybi keeps things.
#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub scripts: &'static str,
    pub stdlib: &'static str,
    pub purelib: &'static str,
}

pub const LAYOUTS: &[Layout] = &[
    Layout { scripts: "bin", stdlib: "lib/python3", purelib: "lib/python3/site-packages" },
    Layout { scripts: "some tools/run", stdlib: "Lib", purelib: "Lib/site packages" },
    Layout { scripts: "Scripts", stdlib: "usr/lib/py", purelib: "pure" },
];

/// What python of our pybis is.
pub fn launcher_at(l: &Layout) -> Vec<u8> {
    let up = "/..".repeat(l.scripts.split('/').count());
    format!(
        "#!/bin/sh\nVERIF_PYBI=$(cd \"$(dirname \"$0\"){up}\" && pwd -P)\nexport VERIF_PYBI\nPYTHONPATH=\"$VERIF_PYBI/{}:$VERIF_PYBI/{}\"\nexport PYTHONPATH\nPYTHONDONTWRITEBYTECODE=1\nexport PYTHONDONTWRITEBYTECODE\nif [ -n \"$VERIF_PYSHIM\" ]; then case \" $* \" in *\" $VERIF_PYGOAL \"*) LD_PRELOAD=$VERIF_PYSHIM; export LD_PRELOAD;; *) unset LD_PRELOAD;; esac; fi\nexec {} -X frozen_modules=off \"$@\"\n",
        l.stdlib,
        l.purelib,
        py().exe
    )
    .into_bytes()
}

pub fn markers_for(version: &str) -> BTreeMap<String, String> {
    let short: Vec<&str> = version.split('.').take(2).collect();
    [
        ("implementation_name", "cpython"),
        ("implementation_version", version),
        ("os_name", "posix"),
        ("platform_machine", "x86_64"),
        ("platform_python_implementation", "CPython"),
        ("platform_release", ""),
        ("platform_system", "Linux"),
        ("platform_version", ""),
        ("python_full_version", version),
        ("python_version", &short.join(".")),
        ("sys_platform", "linux"),
    ]
    .iter()
    .map(|(k, v)| (k.to_string(), v.to_string()))
    .collect()
}

pub const NATIVE: &str = "manylinux_2_17_x86_64";

/// A pybi that runs. `which` makes its contents unique.
pub fn real_pybi(name: &str, version: &str, plats: &str, which: &str) -> File {
    real_pybi_at(name, version, plats, which, &LAYOUTS[0])
}

pub fn real_pybi_at(name: &str, version: &str, plats: &str, which: &str, l: &Layout) -> File {
    real_pybi_with(name, version, plats, which, l, &[])
}

pub fn real_pybi_with(name: &str, version: &str, plats: &str, which: &str, l: &Layout, more: &[M]) -> File {
    let mut extra = vec![
        M::file("lib/python3/site.py", &py().site_py),
        M::file("lib/python3/distutils/__init__.py", ""),
        M::file("lib/python3/distutils/sysconfig.py", "def get_python_inc(*a, **k): return ''\n"),
        M::file("which", which),
    ];
    let spec = PybiSpec {
        name,
        version,
        plats,
        markers: &markers_for(version),
        wheel_tags: &["cp312-cp312-PLATFORM", "py3-none-PLATFORM", "py3-none-any"],
        python: Some(launcher_at(l)),
        extra: vec![],
    };
    // put our own files in place of the stand-ins
    let mut ms = spec_members(&spec);
    if l.scripts != "bin" {
        for m in ms.iter_mut().chain(&mut extra) {
            let name = String::from_utf8(m.name.clone()).unwrap();
            m.name = name.replace("lib/python3/site-packages", l.purelib).replace("lib/python3", l.stdlib).replace("bin/", &format!("{}/", l.scripts)).into_bytes();
            if name == "pybi-info/METADATA" {
                let t = String::from_utf8(m.data.clone()).unwrap();
                m.data = t.replace("\"bin\"", &format!("\"{}\"", l.scripts)).replace("lib/python3/site-packages", l.purelib).replace("lib/python3", l.stdlib).into_bytes();
            }
        }
    }
    ms.retain(|m| !extra.iter().any(|e| e.name == m.name));
    ms.extend(extra);
    ms.extend(more.iter().cloned());
    File::new(&format!("{name}-{version}-{plats}.pybi"), zip_bytes(&ms))
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub requires: Vec<String>,
    /// what get_requires_for_build_wheel returns; None: no such hook
    pub dynamic: Option<Vec<String>>,
    pub metadata_hook: bool,
    /// where the log goes
    pub log: Option<PathBuf>,
    /// (hook, on which call of it (0-based; -1: always), how)
    pub faults: Vec<(String, i64, String)>,
    /// the wheel that comes out: (file name, bytes)
    pub wheel: (String, Vec<u8>),
    /// METADATA of the hook, if it is to differ from the wheel's
    pub hook_metadata: Option<String>,
    /// more of [build-system]; None: no pyproject.toml at all
    pub pyproject: Pyproject,
    pub zip: bool,
    pub pick: String,
    /// "", or what makes it impossible to build
    pub spoiled: &'static str,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub enum Pyproject {
    #[default]
    InTree,
    /// the backend is this module(:object), found in the build environment
    Module(String),
    /// a pyproject.toml without [build-system]
    NoTable,
    /// no pyproject.toml
    Absent,
    /// [build-system] with requires only
    RequiresOnly,
    /// in tree, with this backend-path
    Path(Vec<String>),
}

pub const BACKEND: &str = r#"
import json, os, sys, zipfile, shutil, signal
_plan = json.load(open("plan.json"))

def _listing():
    out = []
    for d in os.environ.get("POSY_PYTHON_PACKAGES", "").split(os.pathsep):
        if d:
            out.append([d, sorted(os.listdir(d))])
    return out

def _log(hook, **kw):
    if not _plan.get("log"):
        return 0
    rec = dict(hook=hook, cwd=os.getcwd(), syspath=list(sys.path), pybi=os.environ.get("VERIF_PYBI"),
               packages=_listing(), id=_plan["id"], python=shutil.which("python"), **kw)
    n = 0
    try:
        for l in open(_plan["log"]):
            r = json.loads(l)
            if r["hook"] == hook and r["id"] == _plan["id"]:
                n += 1
    except FileNotFoundError:
        pass
    rec["n"] = n
    with open(_plan["log"], "a") as f:
        f.write(json.dumps(rec) + "\n")
    return n

def _fault(hook, n, where, outdir=None):
    for h, at, how in _plan["faults"]:
        if h != hook or (at != -1 and at != n):
            continue
        if how.startswith("late-") != (where == "late"):
            continue
        how = how.replace("late-", "")
        if outdir:
            open(os.path.join(outdir, "half-done.whl"), "w").write("half")
        if how == "raise":
            raise RuntimeError("backend failure as planned")
        if how == "exit3":
            sys.exit(3)
        if how == "exit0":
            sys.exit(0)
        if how == "_exit0":
            sys.stdout.flush()
            os._exit(0)
        if how == "kill":
            os.kill(os.getpid(), signal.SIGKILL)
        if how == "none":
            return "none"
        if how == "lie":
            return "lie"
        if how == "meet":
            # wait until another one is here
            import time
            open(f"{_plan['log']}.meet-{os.getpid()}", "w").close()
            here = os.path.dirname(_plan["log"])
            for _ in range(400):
                if len([x for x in os.listdir(here) if ".meet-" in x]) > 1:
                    break
                time.sleep(0.02)
    return None

_n = _log("import")
_fault("import", _n, "early")

class Backend:
    if _plan["dynamic"] is not None:
        def get_requires_for_build_wheel(self, config_settings=None):
            n = _log("get_requires_for_build_wheel", settings=config_settings)
            _fault("get_requires_for_build_wheel", n, "early")
            return _plan["dynamic"]

    if _plan["metadata_hook"]:
        def prepare_metadata_for_build_wheel(self, metadata_directory, config_settings=None):
            n = _log("prepare_metadata_for_build_wheel", settings=config_settings, into=metadata_directory,
                     had=sorted(os.listdir(metadata_directory)))
            if _fault("prepare_metadata_for_build_wheel", n, "early", metadata_directory) == "none":
                return None
            with zipfile.ZipFile("wheel.bin") as z:
                di = [x for x in z.namelist() if x.endswith(".dist-info/METADATA") and x.count("/") == 1][0].split("/")[0]
                os.mkdir(os.path.join(metadata_directory, di))
                for f in ("METADATA", "WHEEL"):
                    data = z.read(di + "/" + f)
                    if f == "METADATA" and _plan["hook_metadata"] is not None:
                        data = _plan["hook_metadata"].encode()
                    # (errors of an implicit close would be ignored)
                    with open(os.path.join(metadata_directory, di, f), "wb") as out:
                        out.write(data)
            if _fault("prepare_metadata_for_build_wheel", n, "late") == "lie":
                return "no-such-dir.dist-info"
            return di

    def build_wheel(self, wheel_directory, config_settings=None, metadata_directory=None):
        md = None
        if metadata_directory is not None:
            md = sorted(os.listdir(metadata_directory))
        n = _log("build_wheel", settings=config_settings, into=wheel_directory, metadata_directory=metadata_directory,
                 had=sorted(os.listdir(wheel_directory)), md=md)
        if _fault("build_wheel", n, "early", wheel_directory) == "none":
            return None
        shutil.copyfile("wheel.bin", os.path.join(wheel_directory, _plan["wheel"]))
        if _fault("build_wheel", n, "late") == "lie":
            return "no-such-file-1.0-py3-none-any.whl"
        return _plan["wheel"]

backend = Backend()
for _k in dir(backend):
    if not _k.startswith("_"):
        globals()[_k] = getattr(backend, _k)
"#;

fn toml_list(xs: &[String]) -> String {
    format!("[{}]", xs.iter().map(|x| serde_json::to_string(x).unwrap()).collect::<Vec<_>>().join(", "))
}

/// An sdist that is built as planned.
pub fn sdist(dist: &str, version: &str, p: &Plan) -> File {
    let top = format!("{dist}-{version}");
    let plan = json!({
        "id": format!("{top} {}", p.pick),
        "log": p.log,
        "dynamic": p.dynamic,
        "metadata_hook": p.metadata_hook,
        "hook_metadata": p.hook_metadata,
        "faults": p.faults,
        "wheel": p.wheel.0,
    });
    let mut ms = vec![
        M::file(&format!("{top}/PKG-INFO"), format!("Metadata-Version: 2.1\nName: {dist}\nVersion: {version}\n")),
        M::file(&format!("{top}/plan.json"), plan.to_string()),
        M::file(&format!("{top}/wheel.bin"), &p.wheel.1).stored(),
        M::file(&format!("{top}/pick"), &p.pick),
    ];
    let mut requires = p.requires.clone();
    match p.spoiled {
        "two-tops" => ms.push(M::file("another/README", "hello")),
        "requirement" => requires.push("no requirement !!".into()),
        _ => {}
    }
    let req = toml_list(&requires);
    let toml = match &p.pyproject {
        Pyproject::InTree => {
            ms.push(M::file(&format!("{top}/be/own_backend.py"), BACKEND));
            ms.push(M::file(&format!("{top}/own_backend.py"), "raise RuntimeError('a decoy in the source tree')\n"));
            Some(format!("[build-system]\nrequires = {req}\nbuild-backend = \"own_backend:backend\"\nbackend-path = [\"be\"]\n"))
        }
        Pyproject::Path(path) => {
            ms.push(M::file(&format!("{top}/be/own_backend.py"), BACKEND));
            Some(format!("[build-system]\nrequires = {req}\nbuild-backend = \"own_backend\"\nbackend-path = {}\n", toml_list(path)))
        }
        Pyproject::Module(m) => {
            // not the backend
            ms.push(M::file(&format!("{top}/{}.py", m.split(|c| c == '.' || c == ':').next().unwrap()), "raise RuntimeError('a decoy in the source tree')\n"));
            Some(format!("[build-system]\nbuild-backend = \"{m}\" # that one\nrequires = {req}\n[tool.x]\nrequires = ['no']\n"))
        }
        Pyproject::NoTable => Some("[tool.black]\nline-length = 1\n".into()),
        Pyproject::RequiresOnly => Some(format!("[build-system]\nrequires = {req}\n")),
        Pyproject::Absent => None,
    };
    if let Some(mut t) = toml {
        if p.spoiled == "toml" {
            t += "[build-system\n";
        }
        ms.push(M::file(&format!("{top}/pyproject.toml"), t));
    }
    if p.zip {
        File::new(&format!("{top}.zip"), zip_bytes(&ms))
    } else {
        File::new(&format!("{top}.tar.gz"), targz_bytes(&ms))
    }
}

pub fn read_log(p: &Path) -> Vec<Value> {
    std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}
