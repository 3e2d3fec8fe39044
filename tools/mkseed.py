#!/usr/bin/env python3
"""Author a planted bug: reads one Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)],
APPEND (source file the demonstration is appended to, as a unit test), DEMO (its body).
Works in a scratch copy of /repo (/tmp/sw), confirms everything, and writes /verif/seeded/ID/."""
import json, os, pathlib, runpy, subprocess, sys, shutil
SW = pathlib.Path("/tmp/sw")
OUT = pathlib.Path("/verif/seeded")
DEMO_SH = r'''#!/bin/bash
# Builds a scratch copy of the crate that has one more unit test, and runs that test.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 3
trap 'find "$tmp" -delete' EXIT
cp -r "$repo/src" "$repo/build.rs" "$repo/Cargo.toml" "$tmp/" || exit 3
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$tmp/"; fi
mkdir -p "$tmp/tests"
cat "$here/demo.rs" >> "$tmp/@APPEND@"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
@FLAGS@cd "$tmp" || exit 3
timeout 250 cargo test --offline @TARGET@ planted_demo > "$tmp/log" 2>&1
rc=$?
tail -n 25 "$tmp/log"
[ $rc -eq 0 ] && grep -q "^test result: ok. 1 passed" "$tmp/log"
'''
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin",
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
    CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
def sh(*a, cwd=SW, **k):
    return subprocess.run(a, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)
def demo(d):
    return sh("bash", str(d / "demo.sh"))
def main(f):
    m = runpy.run_path(f)
    if not SW.exists():
        subprocess.run(["cp", "-a", "/repo", str(SW)], check=True)
    r = sh("git", "fetch", "-q", "/repo", "HEAD"); sh("git", "reset", "-q", "--hard", "FETCH_HEAD")
    d = OUT / m["ID"]; d.mkdir(exist_ok=True)
    (d / "demo.sh").write_text(DEMO_SH.replace("@APPEND@", m["APPEND"]).replace("@FLAGS@", m.get("FLAGS") or 'export CARGO_TARGET_DIR="$repo/target"\n').replace("@TARGET@", "--test planted" if m["APPEND"].startswith("tests/") else "--lib")); (d / "demo.sh").chmod(0o755)
    body = "\n#[cfg(test)]\nmod planted_demo_module {\n    #[allow(unused_imports)]\n    use super::*;\n\n    #[test]\n    fn planted_demo() {\n" + \
        "\n".join(("        " + l).rstrip() for l in m["DEMO"].strip("\n").split("\n")) + "\n    }\n" + m.get("HELP", "") + "}\n"
    if m["APPEND"].startswith("tests/"):
        body = m.get("HEAD", "") + "\n#[test]\nfn planted_demo() {\n" + "\n".join(("    " + l).rstrip() for l in m["DEMO"].strip("\n").split("\n")) + "\n}\n" + m.get("HELP", "")
    (d / "demo.rs").write_text(body)
    (d / "meta.json").write_text(json.dumps({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, indent=1) + "\n")
    r = demo(d)
    if r.returncode != 0:
        print(r.stdout[-1500:]); shutil.rmtree(d); sys.exit("demo fails on the unchanged tree")
    for file, old, new in m["EDITS"]:
        p = SW / file; s = p.read_text()
        if s.count(old) != 1: sys.exit("edit matches %d times: %s" % (s.count(old), old))
        p.write_text(s.replace(old, new))
    if any(e[0].endswith(".lalrpop") for e in m["EDITS"]):
        r = sh("cargo", "build", "--offline", "--lib")
        if r.returncode: print(r.stdout[-3000:]); sys.exit("does not build")
    diff = subprocess.run(["git", "diff"], cwd=SW, stdout=subprocess.PIPE, text=True).stdout
    (d / "patch.diff").write_text(diff)
    r = sh("cargo", "test", "--workspace", "--no-fail-fast", "--offline")
    if r.returncode != 0:
        print("\n".join(l for l in r.stdout.splitlines() if l.startswith("error") or "panicked" in l or "FAILED" in l)); shutil.rmtree(d); sys.exit("tests or build fail with the patch")
    r = demo(d)
    if r.returncode == 0:
        print(r.stdout[-1500:]); shutil.rmtree(d); sys.exit("demo passes with the patch")
    if "panicked" not in r.stdout and "FAILED" not in r.stdout and "signal" not in r.stdout:
        print(r.stdout[-1500:]); shutil.rmtree(d); sys.exit("demo fails for the wrong reason?")
    sh("git", "reset", "-q", "--hard", "FETCH_HEAD")
    print("ok", m["ID"], [l for l in r.stdout.splitlines() if "panicked" in l or "left:" in l or "right:" in l][:4])
for f in sys.argv[1:]:
    main(f)
