#!/usr/bin/env python3
"""Make and try planted bugs.
seed.py make SPECS.py [ID...]   confirm each bug in a scratch copy and write /verif/seeded/ID
seed.py try [ID...]             run the check of its property against each planted bug
A spec is a dict: id, property, edits [(file, old, new)], demo (Go test source or {file: text, 'demo.sh': ...}), where (overlay
directory), run (extra arguments of go test, go command), needs, breaks."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = "/verif"
REPO = "/repo"
ENV = dict(os.environ, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local", PATH="/usr/local/go/bin:/usr/local/bin:" + os.environ["PATH"])

DEMO = """#!/bin/bash
# Exits 0 when the behaviour is right. Run in the root of the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PATH=/usr/local/go/bin:/usr/local/bin:$PATH GOPROXY=off GOTOOLCHAIN=local GOFLAGS=
echo "{\\"Replace\\":{\\"$PWD/%(where)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/overlay.json"
%(envs)s%(go)s test -vet=off -count=1 -timeout 200s -overlay "$T/overlay.json" %(flags)s -run '^TestDemo$' ./%(where)s
"""


def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.check_call(["cp", "-a", REPO + "/.", d])
    subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
    return d


def stable(d):
    """The stable tests, run in the copy."""
    base = json.load(open("/opt/vp/BASELINE.json"))
    code, out = sh(["go", "test", "-count=1", "-json", "./..."], d)
    failed = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "fail":
            failed.add((e.get("Package"), e.get("Test")))
    return failed, out if code and not failed else ""


def make(spec):
    sid = spec["id"]
    d = copy()
    log = []
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        code, out = sh(["go", "build", "./..."], d)
        if code:
            return sid, "does not build: " + out[:600]
        failed, out = stable(d)
        if failed or out:
            return sid, "existing tests fail: %s %s" % (failed, out[:300])
        code, patch = sh(["git", "diff"], d)
        out_dir = os.path.join(V, "seeded", sid)
        shutil.rmtree(out_dir, ignore_errors=True)
        os.makedirs(out_dir)
        open(os.path.join(out_dir, "patch.diff"), "w").write(patch)
        demo = spec["demo"]
        if isinstance(demo, str):
            demo = {"demo_test.go": demo}
        if "demo.sh" not in demo:
            demo["demo.sh"] = DEMO % dict(where=spec.get("where", "proto"), go=spec.get("go", "go"), flags=spec.get("flags", ""), envs=spec.get("envs", ""))
        for n, t in demo.items():
            open(os.path.join(out_dir, n), "w").write(t)
        os.chmod(os.path.join(out_dir, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(out_dir, "meta.json"), "w"), indent=1)
        # the demonstration, from another place
        dd = tempfile.mkdtemp(prefix="demo-")
        shutil.copytree(out_dir, dd + "/x", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        try:
            bad, o1 = sh(["bash", dd + "/x/demo.sh"], d, 300)
            subprocess.check_call(["git", "-C", d, "checkout", "-q", "--", "."])
            good, o2 = sh(["bash", dd + "/x/demo.sh"], d, 300)
        finally:
            shutil.rmtree(dd)
        if bad == 0:
            return sid, "the demonstration passes with the change\n" + o1[-800:]
        if good != 0:
            return sid, "the demonstration fails without the change\n" + o2[-1500:]
        return sid, "ok: " + " | ".join([l for l in o1.splitlines() if l.strip()][:3])[:200]
    finally:
        shutil.rmtree(d)


def attempt(sid, prop=None, seed="1"):
    meta = json.load(open(os.path.join(V, "seeded", sid, "meta.json")))
    d = copy()
    try:
        code, out = sh(["git", "apply", os.path.join(V, "seeded", sid, "patch.diff")], d)
        if code:
            return sid, "patch does not apply: " + out
        env = dict(ENV, VERIF_REPO=d, VERIF_SEED=seed, VERIF_TIER="quick")
        env.pop("GOFLAGS")
        code, out = sh(["python3", "run.py", prop or meta["property"]], V, 900, env)
        lines = out.splitlines()
        hit = [i for i, l in enumerate(lines) if l.startswith("VIOLATION property=" + (prop or meta["property"]))]
        if code == 1 and hit:
            return sid, "CAUGHT by %s: %s" % (prop or meta["property"], " ".join(lines[hit[0] + 1:hit[0] + 2])[:170])
        return sid, "MISSED by %s (exit %d): %s" % (prop or meta["property"], code, out[-400:])
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == "make":
        spec = importlib.util.spec_from_file_location("specs", sys.argv[2])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        todo = [s for s in m.SPECS if not sys.argv[3:] or s["id"] in sys.argv[3:]]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, todo):
                print(*r, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
        prop = os.environ.get("PROP")
        for s in ids:
            print(*attempt(s, prop, os.environ.get("VERIF_SEED", "1")), flush=True)


if __name__ == "__main__":
    main()
