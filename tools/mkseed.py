#!/usr/bin/env python3
"""mkseed.py SPEC.py...   makes and validates planted bugs (development only; no check uses it)

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], MAIN (text of demo.rs), optionally FEATURES (text of the
dependency's extra keys) and EXTRA (further dependencies).  The scratch copy is /tmp/seedrepo."""
import json, os, shutil, subprocess, sys
V = "/verif"
S = "/tmp/seedrepo"
DEMO = r'''#!/bin/bash
# Builds the program beside this script against the laps of the current directory and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d) || exit 3
trap 'rm -rf "$D"' EXIT
mkdir "$D/src"
cp "$HERE/demo.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
laps = { path = "$REPO"@FEATURES@ }
laps_regex = { path = "$REPO/laps_regex" }
[profile.dev]
debug = false
[workspace]
END
cd "$D" || exit 3
CARGO_TARGET_DIR="$D/target" timeout 280 cargo run -q --offline
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def blame(d):
    """Lines removed by the patch that our own commits in /repo added."""
    bad = []
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(l.split("-")[1].split(",")[0].split(" ")[0])
        elif l.startswith(("+++", "diff", "index")):
            pass
        elif l.startswith("-"):
            o = sh("git blame -L %d,%d HEAD -- %s" % (n, n, f), "/repo").stdout
            if not o.startswith("^"):
                bad.append((f, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def main(spec, check):
    ns = {}
    exec(open(spec).read(), ns)
    if not os.path.exists(S):
        assert sh("cp -a /repo " + S).returncode == 0
    r = sh("git fetch -q /repo HEAD && git checkout -qf FETCH_HEAD && git status --short", S)
    d = os.path.join(V, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.rs", "w").write(ns["MAIN"])
    open(d + "/demo.sh", "w").write(DEMO.replace("@FEATURES@", ns.get("FEATURES", ', features = ["macros"]')))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = sh("git diff", S).stdout
    open(d + "/patch.diff", "w").write(diff)
    sh("git checkout -q -- .", S)
    ok = True
    r = sh("bash %s/demo.sh" % d, S)
    if r.returncode != 0:
        print(ns["ID"], "demo fails on the clean tree", [l for l in r.stdout.splitlines() if "error" in l or "-->" in l or "panicked" in l or "left:" in l or "right:" in l][-8:]); ok = False
    r = sh("git apply %s/patch.diff" % d, S)
    assert r.returncode == 0, r.stdout
    if ok:
        r = sh("bash %s/demo.sh" % d, S)
        if r.returncode == 0:
            print(ns["ID"], "demo passes with the patch"); ok = False
        else:
            print(ns["ID"], "demo with patch:", r.returncode, [l for l in r.stdout.splitlines() if "panicked" in l or "left:" in l or "right:" in l][:3])
    if ok:
        r = sh("cargo test --workspace --all-features --offline 2>&1 && cargo check --workspace --all-features --benches --offline && cargo check --workspace --offline", S)
        if r.returncode != 0:
            print(ns["ID"], "tests fail with the patch", [l for l in r.stdout.splitlines() if "error" in l or "panicked" in l or "FAILED" in l][:6]); ok = False
    sh("git checkout -q -- .", S)
    if not ok:
        shutil.rmtree(d)
        return
    own = blame(d)
    if own:
        print(ns["ID"], "CHANGES LINES OF OUR OWN COMMITS", own)
    print(ns["ID"], "valid")
    if check:
        sh("git apply %s/patch.diff" % d, "/repo")
        try:
            r = sh("./check %s" % ns["PROPERTY"], V)
        finally:
            sh("git checkout -q -- .", "/repo")
        print(ns["ID"], "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + ns["PROPERTY"] in r.stdout else "MISSED %d" % r.returncode)
        print("\n".join(l[:400] for l in r.stdout.strip().splitlines()[-5:]))


if __name__ == "__main__":
    a = sys.argv[1:]
    check = "--check" in a
    for s in a:
        if s != "--check":
            main(s, check)
