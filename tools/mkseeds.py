#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for every entry of seeds.py; `mkseeds.py try [ids]` also confirms each:
applies it to /repo, builds, tests, runs the demonstration with and without it, and the property's check."""
import io, json, os, re, shutil, subprocess, sys, tarfile, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS
S = os.path.join(V, "seeded")
DEMO = r'''#!/bin/bash
# Builds the crate from the current directory's sources (stand-ins for the dependencies that are not
# available offline) and runs demo.rs against it: exit 0 when the property's example holds.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
tar xzf "$here/kit.tgz" -C "$w" || exit 2
mkdir -p "$w/harness/src/bin"
cp "$here/demo.rs" "$w/harness/src/bin/demo.rs"
cd "$w/harness" || exit 2
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$w/target"
cargo build -q --features FEATURES --bin demo || exit 2
timeout 60 "$w/target/debug/demo"
'''

def kit():
    buf = io.BytesIO()
    import gzip
    with gzip.GzipFile(fileobj=buf, mode="wb", mtime=0) as gz, tarfile.open(fileobj=gz, mode="w") as t:
        def add(p, name, data=None):
            data = open(p, "rb").read() if data is None else data
            i = tarfile.TarInfo(name); i.size = len(data); i.mode = 0o644
            t.addfile(i, io.BytesIO(data))
        for d in ("stubs", "subject", "subject-api", "sym"):
            for root, dirs, files in os.walk(os.path.join(V, d)):
                dirs[:] = sorted(x for x in dirs if x != "target")
                for f in sorted(files):
                    p = os.path.join(root, f)
                    add(p, os.path.relpath(p, V))
        src = sorted(f for f in os.listdir(os.path.join(V, "harness/src")) if f.endswith(".rs"))
        for f in ["Cargo.toml", "Cargo.lock"] + ["src/" + f for f in src]:
            p = os.path.join(V, "harness", f)
            # only the demonstration is built
            add(p, "harness/" + f, re.sub(rb"\[\[bin\]\]\n(?:[^\[\n].*\n)*", b"", open(p, "rb").read()) if f == "Cargo.toml" else None)
    return buf.getvalue()

def write(s, k):
    d = os.path.join(S, s["id"])
    if os.path.exists(d):
        shutil.rmtree(d)
    os.makedirs(d)
    tmp = tempfile.mkdtemp()
    files = sorted({e[0] for e in s["edits"]})
    patch = ""
    for f in files:
        src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, check=True).stdout.decode()
        new = src
        for (g, a, b) in s["edits"]:
            if g == f:
                if new.count(a) != 1:
                    raise SystemExit(f"{s['id']}: {new.count(a)} matches in {f} of {a!r}")
                new = new.replace(a, b)
        for side, txt in (("a", src), ("b", new)):
            p = os.path.join(tmp, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(txt)
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a/" + f, "b/" + f], cwd=tmp, capture_output=True)
        patch += r.stdout.decode().replace("a/a/", "a/").replace("b/b/", "b/")
    shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("FEATURES", s["features"]))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "kit.tgz"), "wb").write(k)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

def sh(cmd, cwd="/repo", t=900):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode(errors="replace")

def stable_ok():
    out = "/tmp/seed_results.json"
    sh(["bash", "/opt/vp/test.sh", out])
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open(out))
    return base, got

def main():
    args = sys.argv[1:]
    confirm = args[:1] == ["try"]
    nocheck = args[:1] == ["demo"]
    ids = args[1:] if confirm or nocheck else args
    k = kit()
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        write(s, k)
        if not (confirm or nocheck):
            continue
        d = os.path.join(S, s["id"])
        r0, o0 = sh(["bash", os.path.join(d, "demo.sh")])
        a = sh(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
        if a[0]:
            print(s["id"], "DOES NOT APPLY", a[1]); continue
        try:
            b = sh(["bash", "/opt/vp/build.sh"])
            t = sh(["bash", "/opt/vp/test.sh", "/tmp/seed_results.json"])
            r1, o1 = sh(["bash", os.path.join(d, "demo.sh")])
            c = (None, "") if nocheck else sh(["python3", os.path.join(V, "check.py"), s["property"], "quick"], cwd=V)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
        good = r0 == 0 and b[0] == 0 and t[0] == 0 and r1 not in (0, 2)
        verdict = "-" if c[0] is None else ("CAUGHT" if c[0] == 1 and f"VIOLATION property={s['property']} " in c[1] else f"MISSED({c[0]})")
        print(f"{s['id']:34} {'ok ' if good else 'BAD'} demo {r0}/{r1} build {b[0]} test {t[0]} {verdict}", flush=True)
        if not good:
            print(o0[-1500:] if r0 else "", o1[-1500:] if r1 in (0, 2) else "", b[1][-800:] if b[0] else "", t[1][-800:] if t[0] else "")
        if verdict.startswith("MISSED"):
            print("   ", c[1][-600:])
    sh(["bash", "/opt/vp/build.sh"])

main()
