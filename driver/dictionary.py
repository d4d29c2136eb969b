"""The constants that occur in the code under test, as hints for the workloads: numbers become
values, lengths, counts and field numbers now and then, texts become strings, names and comments.
The verdicts do not depend on them. Constants that the repository did not have when this was
written come up more often than the others."""
import json, os, re, sys

TOKEN = re.compile(r"""
    (?P<skip>//[^\n]*|/\*.*?\*/)
  | (?P<raw>`[^`]*`)
  | (?P<str>"(?:[^"\\\n]|\\.)*")
  | (?P<rune>'(?:[^'\\\n]|\\.)+')
  | (?P<num>0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO][0-7_]+|\d[\d_]*(?:\.\d+)?(?:[eE][+-]?\d+)?)
  | (?P<word>[A-Za-z_]\w*)
  | (?P<op><<|[-+*/])
  | (?P<other>\S)
""", re.X | re.S)


def number(s):
    s = s.replace("_", "")
    try:
        if re.fullmatch(r"0[0-7]+", s):
            return int(s, 8)
        return int(s, 0)
    except ValueError:
        f = float(s)
        return int(f) if f == int(f) and abs(f) < 2**64 else None


def text(s):
    body = s[1:-1]
    if s[0] == "`":
        return body
    try:
        return json.loads('"%s"' % re.sub(r"\\x([0-9a-fA-F]{2})", r"\\u00\1", body).replace("\\'", "'").replace("\\a", "\\u0007").replace("\\v", "\\u000b"))
    except ValueError:
        return None


def constants(repo, parts):
    ints, strs = set(), set()
    for part in parts:
        for top, dirs, files in os.walk(os.path.join(repo, part)):
            dirs[:] = sorted(d for d in dirs if d not in ("testdata", "benchmark", "gen"))
            for f in sorted(files):
                if not f.endswith(".go") or f.endswith("_test.go") or f.endswith(".pb.go"):
                    continue
                src = open(os.path.join(top, f), encoding="utf-8", errors="replace").read()
                src = re.sub(r"(?ms)^import \(.*?^\)|^import [^\n]*", "", src)
                last, op = None, None
                for m in TOKEN.finditer(src):
                    k, s = m.lastgroup, m.group()
                    if k == "skip":
                        continue
                    if k == "num":
                        v = number(s)
                        if v is not None:
                            ints.add(v)
                            if last is not None and op == "<<" and v < 64:
                                v = last << v
                                ints.add(v)
                            elif last is not None and op == "*":
                                v = last * v
                                ints.add(v)
                        last, op = v, None
                        continue
                    if k == "rune":
                        t = text('"' + s[1:-1].replace('"', '\\"') + '"')
                        if t and len(t) == 1:
                            ints.add(ord(t))
                            strs.add(t)
                    if k in ("str", "raw"):
                        t = text(s)
                        if t and len(t) < 200:
                            strs.add(t)
                            strs.update(x for x in re.split(r"[\s,;:=]+", t) if 1 < len(x) < 60)
                    op = s if k == "op" and last is not None else None
                    if op is None:
                        last = None
    return {i for i in ints if 3 < i < 2**64}, strs


PARTS = {"runtime": ["proto", "internal/runtime_reflect"], "generator": ["internal/generator", "cmd"]}
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "constants.json")


def prepare(repo, out):
    """Writes the hints and returns the path of the file, or an empty string."""
    try:
        base = json.load(open(BASE))
        res = {}
        for k, parts in PARTS.items():
            ints, strs = constants(repo, parts)
            res[k] = {"ints": sorted(ints), "strings": sorted(strs), "new_ints": sorted(ints - set(base[k]["ints"])),
                      "new_strings": sorted(strs - set(base[k]["strings"]))}
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "hints-%d.json" % os.getpid())
        json.dump(res, open(path, "w"))
        return path
    except Exception as e:  # hints only
        print("no hints: %s" % e, file=sys.stderr)
        return ""


if __name__ == "__main__":
    repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
    json.dump({k: dict(zip(("ints", "strings"), map(sorted, constants(repo, p)))) for k, p in PARTS.items()}, open(BASE, "w"), indent=0)
