# Builds demo.rs (beside this file) against the sources in /repo and runs it.
# Everything is built and run in a scratch directory that is removed afterwards.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.70 CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=1
export CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
work=$(mktemp -d /tmp/posy-demo-XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/crate" "$work/tmp" "$work/target/debug/deps"
export TMPDIR=$work/tmp CARGO_TARGET_DIR=$work/target
# dependencies the repository's own build has already compiled
if [ -d /repo/target/debug/deps ]; then
    cp -a /repo/target/debug/.fingerprint /repo/target/debug/build "$work/target/debug/" 2>/dev/null
    find /repo/target/debug/deps -maxdepth 1 -type f ! -name 'posy-*' ! -name 'libposy-*' \
        -exec cp -a -t "$work/target/debug/deps/" {} + 2>/dev/null
fi
cp /repo/Cargo.lock "$work/crate/"
cp "$here"/*.rs "$work/crate/"
cat > "$work/crate/build.rs" <<'X'
fn main() { println!("cargo:rustc-cfg=posy_verif"); }
X
python3 - "$work/crate/Cargo.toml" <<'X'
import re, sys
t = open("/repo/Cargo.toml").read()
sections = re.split(r"(?m)^(?=\[)", t)
deps = "".join(s for s in sections if re.match(r"\[(target\..*\.)?(dev-)?dependencies\]", s))
pkg = next(s for s in sections if s.startswith("[package]"))
pkg = re.sub(r"(?m)^(license|readme|repository|build|#).*\n", "", pkg)
open(sys.argv[1], "w").write(pkg.rstrip() + '\nbuild = "build.rs"\n[workspace]\n'
    '[lib]\nname = "posy"\npath = "/repo/src/main.rs"\n[[bin]]\nname = "demo"\npath = "demo.rs"\n'
    '[profile.dev.package.backtrace]\nopt-level = 3\n' + deps.replace("[dev-dependencies]", "[dev-dependencies]"))
X
if ! cargo build --offline --manifest-path "$work/crate/Cargo.toml" --bin demo > "$work/log" 2>&1; then
    tail -40 "$work/log"; echo "demo: build failed"; exit 99
fi
cd "$work/tmp"
timeout -k 5 200 "$work/target/debug/demo" "$@"
rc=$?
echo "demo exit status: $rc"
exit $rc
