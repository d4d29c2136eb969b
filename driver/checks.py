"""The checks of properties C01-C13 and C16-C19: worker processes observed by common.Check."""
import os
from common import Check, HarnessError, SEED, TIER, NCPU, known

GB = 1 << 30
TYPES = ("message types drawn at random (reflect.StructOf: 16 kinds x plain, optional wrapper, scalar pointer, list, map, nested; boundary "
         "field numbers; undeclared fields in between), committed mutually recursive families and types of the official generator")

RULES = {
    "C01": "Random " + TYPES + "; random boundary-heavy values, in several Go representations of the same value; each is encoded, decoded into "
           "a fresh message, compared, and sent round once more. Non-trivial: the value has at least one present field; distinct by type and value.",
    "C02": "As C01, with lengths placed next to varint width boundaries; Size, len(Marshal) and every prefix found by a strict parse are "
           "compared. Non-trivial: non-empty value; distinct by type and value.",
    "C03": "As C01; the encoding is read by the official implementation (dynamicpb on a descriptor derived from the type) and walked record by "
           "record by a strict reader. Non-trivial: non-empty value; distinct by type and value.",
    "C04": "A random value is written by a variant encoder that uses every legal freedom (or by the official encoder), cross-checked with two "
           "other decoders, then decoded by the library. Non-trivial: non-empty value; distinct by type and bytes.",
    "C05": "Valid encodings with unknown fields injected at every level, and messages of a random newer schema read with a random older one and "
           "back. Non-trivial: every case; distinct by type(s) and bytes or value.",
    "C06": "Random, mutated, malformed and hostile inputs decoded into fresh and used messages under an allocation bound and a CPU watchdog; "
           "afterwards the message is read, sized, encoded and decoded into. Non-trivial: non-empty input; distinct by type and bytes.",
    "C07": "Every cut of valid inputs and random damage of a known class; the verdict and the error are compared with a strict reference decoder. "
           "Non-trivial: the input is malformed; distinct by type and bytes.",
    "C08": "Random sequences of decode, failed decode, truncation of lists and deletion of map entries on one message; the content after every "
           "decode is compared with a reference merge and with decoding a concatenation. Non-trivial: the merged message is non-empty; distinct by "
           "type, content and input.",
    "C09": "Encode and decode with the address ranges of all memory reachable from messages, inputs and outputs compared for overlap, bit "
           "images compared around calls, and everything overwritten in turn. Non-trivial: non-empty value; distinct by type, value and input.",
    "C10": "Each case is a group of related types never used before in its process; 2-150 goroutines start at one barrier and make their first "
           "calls on them; results are compared with the same calls made alone and with a reference; builds with and without the race detector. "
           "Non-trivial: every case; distinct by types and completion order of the goroutines (distinct interleavings).",
    "C11": "Long histories per process: new types that share sub-types with old ones, rejected types, failed decodes, collections; every call is "
           "judged by a history-free reference, and fixed probes are compared between two different histories. Non-trivial: non-empty call; "
           "distinct by type and value.",
    "C12": "Encode and decode with undeclared fields filled with patterns and watched, guard areas around messages, messages kept alive and looked "
           "at again; run plain, under permanent garbage collection with freed memory clobbered, with checkptr and the race detector, and with "
           "AddressSanitizer. Non-trivial: non-empty value; distinct by type and value.",
    "C13": "As C01 with values replaced by zero and fields toggled; the records on the wire and the set-ness after decoding are compared with the "
           "presence of the value. Non-trivial: non-empty value; distinct by type and value.",
    "C16": "A table of unusable arguments plus random pointer and container chains around random message types, given to Unmarshal and Marshal "
           "with random non-empty input. Non-trivial: every call; distinct by argument type and input.",
    "C17": "The same deterministic operations (round trips, variants, malformed input, maps of every key and value kind up to 3000 entries) on "
           "every toolchain and word size; each has its oracle on the spot and the digests are compared across. Non-trivial: every case; distinct by "
           "type and content.",
    "C18": "Random sequences of assigning (every constructor), copying, decoding and asking wrappers of every supported and some other element "
           "types. Non-trivial: every sequence; distinct by types and values.",
    "C19": "Random, deeply nested, long and giant values; thread CPU time and allocation of Size and Marshal are held against the work counted "
           "in the value (fields, elements and bytes, each times its nesting depth). Non-trivial: non-empty value; distinct by type and value.",
}

# cases per tier
SIZES = {
    "C01": (12000, 120000), "C02": (12000, 100000), "C03": (12000, 100000), "C04": (12000, 100000), "C05": (12000, 120000),
    "C06": (2400, 60000), "C07": (6000, 60000), "C08": (8000, 120000), "C09": (8000, 100000), "C13": (16000, 120000),
    "C16": (6000, 30000), "C18": (40000, 400000), "C19": (2400, 40000),
}
ASSUME = ["the reference codec and the value model of /verif/harness/vf are right (cross-checked against the official implementation in C03 and C04)",
          "the Go toolchain and its runtime are right"]


def n(prop, quick, thorough):
    return quick if TIER != "thorough" else thorough


def simple(prop):
    q, t = SIZES[prop]
    cases = n(prop, q, t)
    c = Check(prop, RULES[prop], 500 if prop != "C16" else 200)
    c.assumptions = ASSUME
    exe = c.build("plain")
    shards = NCPU * (1 if TIER != "thorough" else 4)
    jobs = [dict(exe=exe, variant="plain", shard=s, shards=shards, cases=cases, as_limit=8 * GB) for s in range(shards)]
    if prop == "C06":
        for k in range(6):
            jobs.append(dict(exe=exe, variant="deep nesting", workload="C06deep", shard=0, shards=1, cases=7, args=["-case", str(k)], as_limit=8 * GB))
        jobs.append(dict(exe=exe, variant="nesting of 3000000 levels", workload="C06deep", shard=0, shards=1, cases=7, args=["-case", "6"],
                         as_limit=12 * GB, known_key="unbounded-recursion", case_cpu=120))
        small = c.build("386", GOARCH="386", CGO_ENABLED="0")
        for e, v in ((exe, "inputs of a gigabyte"), (small, "inputs of a gigabyte, 32 bits")):
            jobs.insert(0, dict(exe=e, variant=v, workload="C06giant", shard=0, shards=1, cases=2 if TIER != "thorough" else 40, no_memory_rule=True))
    if prop == "C02":
        for k in range(3):
            jobs.insert(0, dict(exe=exe, variant="gigabytes", workload="C02giant", shard=0, shards=1, cases=3, args=["-case", str(k)], as_limit=20 * GB, no_memory_rule=True))
    if prop == "C01":
        for k in range(1 if TIER != "thorough" else 2):
            jobs.insert(0, dict(exe=exe, variant="gigabytes", workload="C01giant", shard=0, shards=1, cases=2, args=["-case", str(k)], as_limit=24 * GB, no_memory_rule=True))
    if prop == "C05":
        jobs.insert(0, dict(exe=exe, variant="gigabytes", workload="C05giant", shard=0, shards=1, cases=1 if TIER != "thorough" else 20, as_limit=16 * GB, no_memory_rule=True))
    c.run(jobs)
    return c.finish()


def c10():
    c = Check("C10", RULES["C10"], 60)
    c.assumptions = ASSUME + ["a race is seen only if both accesses happen in an observed execution",
                              "interleavings are those the Go scheduler produced on this machine"]
    race = c.build("race", ["-race"])
    plain = c.build("plain")
    per = 4  # cases per process: first uses are what matters
    nrace, nplain = n("C10", 60, 900), n("C10", 60, 900)
    jobs = []
    for s in range(nrace):
        jobs.append(dict(exe=race, build="race", build_flags=["-race"], variant="race detector", shard=s, shards=nrace, cases=per * nrace,
                         env={"GORACE": "halt_on_error=1 exitcode=66 history_size=3"}, case_cpu=240))
    for s in range(nplain):
        jobs.append(dict(exe=plain, variant="plain", shard=s, shards=nplain, cases=per * nplain, seed=SEED + 1000003))
    # goroutines need real parallelism
    c.run(jobs, parallel=max(2, NCPU // 2))
    return c.finish()


def c11():
    c = Check("C11", RULES["C11"], 300)
    c.assumptions = ASSUME
    exe = c.build("plain")
    cases = n("C11", 1200, 30000)
    a, b = n("C11", 12, 60), n("C11", 18, 90)
    # the same probes after two different histories
    j1 = [dict(exe=exe, variant="history A", shard=s, shards=a, cases=cases, as_limit=8 * GB) for s in range(a)]
    j2 = [dict(exe=exe, variant="history B", shard=s, shards=b, cases=cases, args=["-reverse"], as_limit=8 * GB) for s in range(b)]
    # and a process with very many types
    j3 = [dict(exe=exe, variant="flood of types", workload="C11flood", shard=0, shards=1, cases=1, as_limit=12 * GB, case_cpu=600)]
    c.run(j3 + j1 + j2)
    if not c.violations and not c.errors:
        d1, d2 = digests(j1), digests(j2)
        compare(c, d1, d2, "history A", "history B", "the same call gives different results after different histories")
        c.extra["probes_compared_between_histories"] = len(d1)
    return c.finish()


def digests(jobs):
    out = {}
    for j in jobs:
        k = {}
        for line in j.get("digest", []):
            case, rest = line.split(" ", 1)
            k.setdefault(case, []).append(rest)
        out.update(k)
    return out


def compare(c, d1, d2, n1, n2, what):
    bad = [k for k in d1 if k in d2 and d1[k] != d2[k]]
    missing = set(d1) ^ set(d2)
    if missing:
        c.errors.append("digests are missing for cases %s in %s or %s" % (sorted(missing)[:5], n1, n2))
    if bad:
        k = min(bad, key=int)
        c.violation(what, {"case": int(k), n1: d1[k], n2: d2[k], "seed": SEED})
    c.evals += len(d1)


def c12():
    c = Check("C12", RULES["C12"], 300)
    c.assumptions = ASSUME + ["the garbage collector, checkptr and AddressSanitizer see only what the executed code does; accesses inside one "
                              "object are seen through the watched fields and the value comparison"]
    plain = c.build("plain")
    race = c.build("race", ["-race"])
    asan = c.build("asan", ["-asan"])
    old = c.build("go1.23", go="go1.23", CGO_ENABLED="0")
    small = c.build("386", GOARCH="386", CGO_ENABLED="0")
    jobs = []

    def add(exe, variant, k, cases, seed, **kw):
        for s in range(k):
            jobs.append(dict(exe=exe, variant=variant, shard=s, shards=k, cases=cases, seed=SEED + seed, case_cpu=400, **kw))

    m = n("C12", 1, 25)
    p = NCPU if TIER != "thorough" else 4 * NCPU
    add(race, "checkptr and race detector", p, 320 * m, 1, build="race", build_flags=["-race"],
        env={"GORACE": "halt_on_error=1 exitcode=66"})
    add(asan, "AddressSanitizer", p, 320 * m, 2, build="asan", build_flags=["-asan"], env={"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1"})
    add(plain, "permanent collection, freed memory clobbered", p, 320 * m, 3, env={"GODEBUG": "clobberfree=1", "VERIF_GC": "1"})
    add(old, "Go 1.23, permanent collection, freed memory clobbered", p // 2, 120 * m, 4, build="go1.23", go="go1.23", build_env={"CGO_ENABLED": "0"},
        env={"GODEBUG": "clobberfree=1", "VERIF_GC": "1"})
    add(small, "386, permanent collection, freed memory clobbered", p // 2, 120 * m, 5, build="386", build_env={"GOARCH": "386", "CGO_ENABLED": "0"},
        env={"GODEBUG": "clobberfree=1", "VERIF_GC": "1"})
    add(plain, "marking of the collector checked", p // 2, 60 * m, 6, env={"GODEBUG": "gccheckmark=1", "VERIF_GC": "1"})
    add(plain, "plain", p, 1600 * m, 0, as_limit=8 * GB)
    c.run(jobs)
    return c.finish()


def c17():
    c = Check("C17", RULES["C17"], 300)
    c.assumptions = ASSUME + ["other word sizes are represented by linux/386 run natively"]
    combos = []
    from concurrent.futures import ThreadPoolExecutor
    vers = ["1.23", "1.24", "1.25", "1.26", "1.27"]
    for v in vers:
        for a in ("amd64", "386"):
            combos.append((v, a))

    def b(x):
        v, a = x
        return c.build("go%s-%s" % (v, a), go="go" + v, GOARCH=a, CGO_ENABLED="0")

    with ThreadPoolExecutor(3) as ex:
        exes = list(ex.map(b, combos))
    cases = n("C17", 800, 16000)
    shards = n("C17", 2, 8)
    groups = []
    for (v, a), exe in zip(combos, exes):
        name = "go%s %s" % (v, a)
        groups.append((name, [dict(exe=exe, build="go%s-%s" % (v, a), go="go" + v, build_env={"GOARCH": a, "CGO_ENABLED": "0"}, variant=name,
                                   shard=s, shards=shards, cases=cases) for s in range(shards)]))
    c.run([j for _, g in groups for j in g])
    if not c.violations and not c.errors:
        ref = digests(groups[0][1])
        for name, g in groups[1:]:
            compare(c, ref, digests(g), groups[0][0], name, "results differ between %s and %s" % (groups[0][0], name))
        c.extra["results_compared_across_platforms"] = len(ref)
    return c.finish()
