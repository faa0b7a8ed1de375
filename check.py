#!/usr/bin/env python3
"""Decides one property: compiles its harness together with /repo's current sources to LLVM IR,
explores the IR symbolically (engine/), and replays every counterexample natively.

  check.py <ID> [quick|thorough]     exit 0: held within the bounds; 1: VIOLATION; 2: no answer
  check.py --setup                   builds everything the checks need
  check.py --bless <ID>              records which reachability witnesses a run must reach
"""
import glob, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
ENGINE = os.path.join(T, "engine", "release", "engine")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def run(cmd, cwd, env, what, timeout=850):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{what}: timed out")
    if r.returncode != 0:
        raise NoAnswer(f"{what} failed ({r.returncode}):\n" + r.stdout.decode(errors="replace")[-4000:])
    return r.stdout.decode(errors="replace")


def build_engine():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(T, "engine"))
    run(["cargo", "build", "--release", "-q"], os.path.join(V, "engine"), env, "building the engine")


def split(b):
    """A harness name is <bin> or <bin>+<cargo feature>."""
    return (b.split("+") + [""])[:2]


def build_ll(b):
    out = os.path.join(T, b + ".ll")
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(T, "ll"), RUSTFLAGS="-Awarnings")
    n, feat = split(b)
    cmd = ["cargo", "rustc", "-q", "-Zchecksum-freshness", "--release", "--bin", n] + (
        ["--features", feat] if feat else []) + ["--",
           "--emit=llvm-ir=" + out, "-Cno-vectorize-loops", "-Cno-vectorize-slp", "-Crelocation-model=static",
           "-Clinker=/bin/true"]
    h = os.path.join(V, "harness")
    run(cmd, h, env, f"compiling {b} with the current tree")
    if not os.path.exists(out):
        raise NoAnswer(f"no LLVM IR for {b}: remove {T} and run the setup again")
    return out


def build_native(b):
    n, feat = split(b)
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(T, "nat" + feat), RUSTFLAGS="-Awarnings",
               CARGO_PROFILE_RELEASE_LTO="off", CARGO_PROFILE_RELEASE_CODEGEN_UNITS="16",
               CARGO_PROFILE_RELEASE_DEBUG="0")
    run(["cargo", "build", "-q", "-Zchecksum-freshness", "--release", "--features", ",".join(["native"] + [feat] * bool(feat)),
         "--bin", n], os.path.join(V, "harness"), env, f"compiling {b} natively")
    return os.path.join(T, "nat" + feat, "release", n)


def bins_of(pid):
    """The harnesses of a property; "//! with: x" asks for feature x, "//! features: x" for a second build with it."""
    p = pid.lower()
    r = []
    for f in sorted(glob.glob(os.path.join(V, "harness/src/bin", p + "*.rs"))):
        n = os.path.basename(f)[:-3]
        if n != p and not n.startswith(p + "_"):
            continue
        m = re.search(r"^//! with: (\w+)$", open(f).read(), re.M)
        r.append(n + "+" + m.group(1) if m else n)
        m = re.search(r"^//! features: (\w+)$", open(f).read(), re.M)
        if m:
            r.append(n + "+" + m.group(1))
    return r


def replay(exe, entry, case, path, depth):
    with open(path, "w") as f:
        f.write(f"# replay with: SYM_DEPTH={depth} {exe} {entry} {path}\n")
        for v in case["inputs"]:
            f.write(f"v {v}\n")
        for u in filter(None, case["ufs"].split(";")):
            f.write("u " + " ".join(u.split(":")) + "\n")
    try:
        r = subprocess.run([exe, entry, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30,
                           env=dict(ENV, SYM_DEPTH=str(depth)))
    except subprocess.TimeoutExpired:
        return ["TIMEOUT"]
    return r.stdout.decode(errors="replace").splitlines() + [f"RC {r.returncode}"]


def reproduced(lines, msg):
    """Does the native run show the reported failure?"""
    if msg == "does not finish":
        return lines == ["TIMEOUT"]
    allowed = False
    for l in lines:
        if l.startswith("ALLOW-PANIC"):
            allowed = l.endswith("1")
        if l == "CHECK-FAIL " + msg:
            return True
        if l.startswith("PANIC") and msg.startswith("panic") and not allowed:
            return True
        if l.startswith("RC -") and msg.startswith("panic") and not allowed:
            return True
    return False


def known_findings():
    r = []
    p = os.path.join(V, "known_findings.json")
    if os.path.exists(p):
        r = json.load(open(p))["findings"]
    return r


def check(pid, tier, bless=False):
    t0 = time.time()
    depth = 1 if tier == "thorough" else 0
    budget = 780 if tier == "quick" else 3300
    if not os.path.exists(ENGINE):
        build_engine()
    meta = json.load(open(os.path.join(V, "bounds.json"))).get(pid, {})
    bins = bins_of(pid)
    if not bins:
        raise NoAnswer("no harness for " + pid)
    rdir = os.path.join(V, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")):
        os.remove(f)
    entries, build_s, solver = [], 0.0, ""
    native = ThreadPoolExecutor(1)
    exes = {b: native.submit(build_native, b) for b in bins}
    known = [k for k in known_findings() if k["property"] == pid and k.get("status") == "finding"]
    viol, known_hit, problems, validated, kfcases = [], [], [], 0, 0

    def exe(b):
        return exes[b].result()

    seen = set()
    judged = []

    def listed(e, v):
        return next((k for k in known if k["entry"] == e["name"] and k["msg"] == v["msg"]), None)

    def judge():
        """Replays what the solver found against the code itself."""
        for e in entries[len(judged):]:
            judged.append(e["name"])
            for v in e["violations"]:
                key = (e["name"], v["msg"])
                k = listed(e, v)
                if key in seen:
                    continue
                if len(seen) >= 24 and not k:
                    continue
                path = os.path.join(rdir, f"{pid}-{len(os.listdir(rdir)) + 1}.txt")
                lines = replay(exe(e["bin"]), e["name"], v, path, depth)
                if reproduced(lines, v["msg"]):
                    seen.add(key)
                    with open(path, "a") as f:
                        f.write(f"# entry {e['name']}: {v['msg']}\n# at {v['trace']}\n")
                    if k:
                        known_hit.append((k, path))
                    else:
                        viol.append((e["name"], v["msg"], path, v["trace"]))
                else:
                    problems.append(f"{e['name']}: counterexample for '{v['msg']}' did not reproduce natively: {lines[-6:]}")
            for i, c in e["inconclusive"].items():
                problems.append(f"{e['name']}: inconclusive: {i} (x{c})")

    for b in bins:
        t = time.time()
        ll = build_ll(b)
        build_s += time.time() - t
        out = os.path.join(T, b + ".json")
        left = budget - (time.time() - t0)
        run([ENGINE, ll, "--out", out, "--jobs", "8", "--depth", str(depth), "--time", str(int(max(left, 10))),
             "--check-ms", "120000" if tier == "quick" else "600000"], V, dict(ENV), f"exploring {b}",
            timeout=left + 60)
        o = json.load(open(out))
        solver = o["solver"]
        for e in o["entries"]:
            e["bin"] = b
            entries.append(e)
        # a violation that the code itself confirms settles the matter
        if any(not listed(e, v) for e in o["entries"] for v in e["violations"]):
            judge()
            if viol:
                native.shutdown(wait=False, cancel_futures=True)
                break
    judge()

    samples = []
    if not viol:
        for e in entries:
            for w in e["witnesses"][:6]:
                path = os.path.join(rdir, "witness.txt")
                lines = replay(exe(e["bin"]), e["name"], w, path, depth)
                obs = [int(l[4:]) for l in lines if l.startswith("OBS ")]
                cov = [l[6:] for l in lines if l.startswith("COVER ")]
                want = [c for c in w["covers"].split("|") if c]
                bad = [l for l in lines if l.startswith("CHECK-FAIL") and not any(
                    k["entry"] == e["name"] and "CHECK-FAIL " + k["msg"] == l for k in known)]
                if "END" in lines and obs == w["obs"] and set(want) <= set(cov) and not bad:
                    validated += 1
                    if len(samples) < 8:
                        samples.append({"entry": e["name"], "inputs": w["inputs"][:40], "reached": want[:8],
                                        "native_run_agrees": True})
                else:
                    problems.append(f"{e['name']}: native run of a path witness disagrees: {lines[-5:]} expected obs {w['obs'][:5]} covers {want}")
        for f in glob.glob(os.path.join(rdir, "witness.txt")):
            os.remove(f)
        exp_path = os.path.join(V, "expect", pid + ".json")
        if bless:
            json.dump({e["name"]: sorted(e["covers"]) for e in entries}, open(exp_path, "w"), indent=1, sort_keys=True)
        exp = json.load(open(exp_path)) if os.path.exists(exp_path) else None
        if exp is None:
            problems.append("no list of expected reachability witnesses")
        else:
            got = {e["name"]: e["covers"] for e in entries}
            for name, cs in exp.items():
                for c in cs:
                    if name not in got or c not in got[name]:
                        problems.append(f"vacuity: {name} no longer reaches '{c}'")
            for e in entries:
                if not e["covers"]:
                    problems.append(f"vacuity: {e['name']} reaches no witness point")

    tot = lambda k: sum(e.get(k, 0) for e in entries)
    fns = sorted({f for e in entries for f in e["functions"] if "ethereum_consensus" in f or "beacon_api" in f})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "coverage": {
            "states": tot("paths") + tot("panic_paths") + tot("assumed_away"),
            "transitions": tot("instrs"),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"entry": e["name"], "covers": sorted(e["covers"])[:6]} for e in entries[:4]],
            "what": "symbolic paths of the compiled code (states), LLVM instructions interpreted symbolically (transitions); every assertion on every path decided by the solver",
            "entry_points": [
                {"name": e["name"], "paths": e.get("paths", 0), "forks": e.get("forks", 0),
                 "assertions_decided": e.get("checks", 0), "by_rewriting": e.get("checks_trivial", 0),
                 "solver_queries": e.get("queries", 0), "solver_ms": e.get("solver_ms", 0),
                 "instructions": e.get("instrs", 0), "wall_s": e["wall_s"]} for e in entries],
            "assertions_decided": tot("checks"), "solver_queries": tot("queries"),
            "solver_unknown": tot("unknown_queries"), "solver_s": round(tot("solver_ms") / 1000, 2),
            "functions_encoded": len(fns), "functions": fns[:250],
            "bounds": meta.get("bounds", ""), "outside": meta.get("outside", ""), "solver": solver,
            "build_s": round(build_s, 2),
        },
        "assumptions": meta.get("assumptions", []) + [
            "the LLVM IR rustc produces (opt-level 1, overflow checks on) is the program; engine and Z3 are trusted",
            "SHA-256 on symbolic data is an injective uninterpreted function; BLS, KZG are uninterpreted functions of their documented arguments",
        ],
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and ev["coverage"]["functions"]:
        ev["coverage"]["functions"] = ev["coverage"]["functions"][: len(ev["coverage"]["functions"]) // 2]
        s = json.dumps(ev, indent=1)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        f.write(s)

    for k, path in known_hit:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: {len(entries)} entry points, {tot('paths')} paths, {tot('checks')} assertions, "
          f"{tot('queries')} queries, {validated} witnesses replayed, {time.time() - t0:.1f} s (build {build_s:.1f})")
    if viol:
        for name, msg, path, trace in viol:
            print(f"{name}: {msg}  [{trace[:300]}]")
        print(f"VIOLATION property={pid} replay={viol[0][2]}")
        return 1
    if problems:
        for p in problems[:20]:
            print("NO-ANSWER:", p[:600])
        return 2
    return 0


def setup():
    build_engine()
    h = os.path.join(V, "harness/src/bin")
    ids = sorted({c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]})
    bs = [b for i in ids for b in bins_of(i)]
    for b in bs:
        try:
            build_ll(b)
            build_native(b)
        except NoAnswer as e:
            print(e)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--setup"]:
            return setup()
        if a[:1] == ["--bless"]:
            return max(check(p, "quick", True) for p in a[1:])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier if tier in ("quick", "thorough") else "quick")
    except NoAnswer as e:
        print("NO-ANSWER:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
