"""The checks of the generator, C14, C15, C20 and C21. Random schema sets go through protoc and the
generator built from /repo; genmon watches the responses, the generated code is built, and
the resulting program (harness/exch) watches the generated types."""
import json, os, re, shutil, subprocess
import common
from common import Check, HarnessError, SEED, TIER, NCPU, REPO, VERIF, sh

RULES = {
    "C14": "Random schema sets (1-5 files, proto2 and proto3, every kind, label, option, nesting, maps, enums, imports, well-known types, awkward "
           "names and comments) accepted by protoc; the generated code is built and random values of every message type go from the generated type "
           "to dynamicpb on the schema and back. Non-trivial: non-empty value; distinct by message name, shape and value.",
    "C15": "As C14 with oneofs, groups and extensions; the generator is run repeatedly (different processes, CPU counts, directories) and with "
           "partial and permuted requests, and every declaration in the built code is compared with the schema by reflection and calls. "
           "Non-trivial: every schema set, message and enum; distinct by text or full name.",
    "C20": "Random schema sets as C15 under random generator parameters (locations, import paths, annotations, refused and contradictory ones) "
           "and with requests damaged or incomplete; responses are compared with the one without parameters. Non-trivial: every request; distinct "
           "by schema text and parameter.",
    "C21": "Random schema sets with comments in every position; generated source is parsed, documentation is matched with the schema's comments, "
           "and the code is compared with that of the schema without comments. Non-trivial: every documented declaration; distinct by schema.",
}

GOMOD = """module genmod

go 1.22

require (
	verif v0.0.0
	github.com/RomiChan/protobuf v0.0.0
	google.golang.org/protobuf v1.27.1
)

require github.com/RomiChan/syncx v0.0.0-20240418144900-b7402ffdebc7 // indirect

replace verif => %s/harness

replace github.com/RomiChan/protobuf => %s
"""


def schema_text(d, name):
    out = {}
    for root, _, files in os.walk(os.path.join(d, "proto", name)):
        for f in sorted(files):
            p = os.path.join(root, f)
            out[os.path.relpath(p, os.path.join(d, "proto"))] = open(p, encoding="utf-8", errors="replace").read()
    return out


def batch(c, k, sets, plugin, genmon, variants):
    prop = c.prop
    seed = SEED + 7919 * k
    d = os.path.join(c.dir, "batch%d" % k)
    os.makedirs(d)
    outf = os.path.join(d, "genmon.json")
    code, text = sh([genmon, "-prop", prop, "-seed", str(seed), "-sets", str(sets), "-plugin", plugin, "-dir", d, "-out", outf])
    try:
        res = json.load(open(outf))
    except (OSError, ValueError):
        raise HarnessError("genmon failed (%d):\n%s" % (code, text[-4000:]))
    if res.get("harness_error"):
        raise HarnessError("genmon: " + res["harness_error"])
    c.evals += res["evals"]
    c.hashes.update(res["hashes"] or [])
    for key, n in res["cover"].items():
        c.cover[key] = c.cover.get(key, 0) + n
    if len(c.samples) < 3:
        c.samples += (res["samples"] or [])[:1]
    v = res.get("violation")
    if v:
        c.violation(v["msg"], {"generator_batch_seed": seed, "set": v["case"], "trace": v["trace"]})
        return
    if code:
        raise HarnessError("genmon failed (%d):\n%s" % (code, text[-4000:]))
    if res["cover"].get("schemas:accepted", 0) < sets * 8 // 10:
        c.errors.append("only %s of %d schema sets were accepted by protoc" % (res["cover"].get("schemas:accepted"), sets))
        return
    if not variants:
        shutil.rmtree(d, ignore_errors=True)
        return
    mod = os.path.join(d, "mod")
    open(os.path.join(mod, "go.mod"), "w").write(GOMOD % (VERIF, REPO))
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(mod, "go.sum"))
    jobs = []
    for name, go, flags, benv, penv in variants:
        exe = os.path.join(d, "prog-" + name.replace(" ", "-"))
        code, text = sh([go, "build", *flags, "-o", exe, "."], cwd=mod, **benv)
        if code:
            m = re.search(r"^(?:\./)?(s\d{4})/(\S+?\.go):\d+(?::\d+)?: (.*)$", text, re.M)
            if not m:
                raise HarnessError("building the generated code (%s) failed:\n%s" % (name, text[-4000:]))
            what = "a declaration that the schema calls for is missing or has another form" if "/table/" in m.group(0) else \
                "the generated code does not compile"
            c.violation("%s: %s" % (what, m.group(0)), {"generator_batch_seed": seed, "set": m.group(1), "compiler": text[:6000],
                                                        "schema": schema_text(d, m.group(1))})
            return
        for s in range(NCPU):
            jobs.append(dict(exe=exe, build="generated", variant=name, shard=s, shards=NCPU, cases=sets, seed=seed, env=penv))
    before = len(c.violations)
    c.run(jobs)
    for msg, path in c.violations[before:]:
        r = json.load(open(path))
        r["generator_batch_seed"] = seed
        if r.get("case") is not None:
            r["schema"] = schema_text(d, "s%04d" % r["case"])
        json.dump(r, open(path, "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)


def run(prop, quick, thorough, minimum):
    c = Check(prop, RULES[prop], minimum)
    c.assumptions = ["protoc 3.21 decides what is a schema, google.golang.org/protobuf 1.27.1 (dynamicpb, protogen) what it means and which Go names it gets",
                     "the Go toolchain is right"]
    genmon = os.path.join(c.dir, "genmon")
    mod = os.path.join(c.dir, "gen.mod")
    plugin = os.path.join(c.dir, "protoc-gen-golite")
    src = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(src)
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), mod[:-3] + "sum")
    for out, pkg in ((genmon, "./genmon"), (plugin, "github.com/RomiChan/protobuf/cmd/protoc-gen-golite")):
        code, text = sh(["go", "build", "-modfile", mod, "-o", out, pkg], cwd=os.path.join(VERIF, "harness"))
        if code:
            raise HarnessError("building %s failed:\n%s" % (pkg, text[-4000:]))
    variants = [("amd64", "go", [], {}, {})] if prop in ("C14", "C15") else []  # C20 and C21 look at source only
    if TIER == "thorough" and variants:
        variants.append(("386 go1.23", "go1.23", [], {"GOARCH": "386", "CGO_ENABLED": "0"}, {}))
        if prop == "C14":
            variants.append(("race detector", "go", ["-race"], {}, {"GORACE": "halt_on_error=1 exitcode=66"}))
    batches, sets = quick if TIER != "thorough" else thorough
    sets = int(os.environ.get("VERIF_SETS", sets))  # for development
    for k in range(batches):
        batch(c, k, sets, plugin, genmon, variants)
        if c.errors or c.violations:
            break
    return c.finish()


def c14():
    return run("C14", (1, 360), (12, 300), 300)


def c15():
    return run("C15", (1, 300), (12, 300), 300)


def c20():
    return run("C20", (1, 300), (12, 300), 300)


def c21():
    return run("C21", (1, 700), (12, 300), 300)
