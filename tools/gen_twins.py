#!/usr/bin/env python3
"""Writes harness/fam/twins.go and harness/fam/two/fam/fam.go: types that are easily confused with one another.
Local types of one name with other fields, instances of one generic type, types of one name in packages of one
name. Deterministic; the output is committed."""
import os, random, subprocess
R = random.Random(77)
SC = [("bool","varint"),("int32","varint"),("int64","varint"),("uint32","varint"),("uint64","varint"),
      ("int32","zigzag32"),("int64","zigzag64"),("uint32","fixed32"),("uint64","fixed64"),
      ("int32","fixed32"),("int64","fixed64"),("float32","fixed32"),("float64","fixed64"),
      ("string","bytes"),("[]byte","bytes")]
KEYS = [s for s in SC if s[0] not in ("float32","float64","[]byte")]

def field(t, w):
    c = R.choice(["plain","opt","rep","map","ptr","nrep","nmap"])
    lo = w.startswith("varint") and t == "int32"
    if c == "opt" and t != "[]byte": return (f"proto.Option[{t}]", w, None, None)
    if c == "ptr": return (f"*{t}", w, None, None)
    if c == "rep": return (f"[]{t}", w, None, None)
    if c == "nrep": return (f"List[{t}]", w, None, None)
    if c in ("map", "nmap"):
        k, kw = R.choice(KEYS)
        return (f"map[{k}]{t}" if c == "map" else f"Dict[{k}, {t}]", "bytes", kw, w)
    return (t, w, None, None)

def edge(n):
    c = R.choice(["ptr","rep","map","nrep","nmap"])
    if c == "ptr": return (f"*{n}", "bytes", None, None)
    if c == "rep": return (f"[]*{n}", "bytes", None, None)
    if c == "nrep": return (f"List[*{n}]", "bytes", None, None)
    k, kw = R.choice(KEYS)
    return (f"map[{k}]*{n}" if c == "map" else f"Dict[{k}, *{n}]", "bytes", kw, "bytes")

def struct(name, fields, out, ind, nums=None):
    out.append(f"{ind}type {name} struct {{")
    for k, (t, w, kw, vw) in enumerate(fields):
        n = nums[k] if nums else k + 1
        lab = "rep" if (t.startswith("[]") and t != "[]byte") or t.startswith(("map", "List", "Dict")) else "opt"
        tag = f'protobuf:"{w},{n},{lab}"'
        if kw: tag += f' protobuf_key:"{kw},1,opt" protobuf_val:"{vw},2,opt"'
        out.append(f"{ind}\tA{k} {t} `{tag}`")
    out.append(f"{ind}}}")

HEAD = ["// Code generated by tools/gen_twins.py. DO NOT EDIT.", ""]

def write(path, out):
    src = subprocess.run(["/usr/local/go/bin/gofmt"], input="\n".join(out) + "\n", capture_output=True, text=True, check=True).stdout
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "../harness/fam", path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(src)

# ---- local types of one name, generic instances
out = HEAD + ["package fam", "", "import (", '\t"reflect"', "", '\t"github.com/RomiChan/protobuf/proto"', "", '\ttwo "verif/fam/two/fam"', ")", "",
    "// List and Dict are named containers.", "type List[T any] []T", "type Dict[K comparable, V any] map[K]V", "",
    "// Gen has instances that differ in their arguments alone.",
    "type Gen[T, U any] struct {",
    '\tA0 T `protobuf:"varint,1,opt"`',
    '\tA1 []U `protobuf:"varint,2,rep"`',
    '\tA2 map[string]T `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`',
    '\tA3 *Gen[U, T] `protobuf:"bytes,4,opt"`',
    '\tA4 []*Gen[T, U] `protobuf:"bytes,5,rep"`',
    '\tA5 map[int32]*Gen[U, T] `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`',
    '\tA6 *U `protobuf:"varint,7,opt"`',
    "}", ""]
NT = 10
for i in range(NT):
    out.append(f"func twins{i}() []reflect.Type {{")
    n = R.choice([1, 2, 3, 4])
    struct("Leaf", [field(*R.choice(SC)) for _ in range(n)], out, "\t")
    struct("Node", [field(*R.choice(SC)), edge("Leaf"), edge("Node"), field(*R.choice(SC)), edge("Leaf")], out, "\t")
    out.append("\treturn []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}")
    out.append("}")
    out.append("")
# containers of one name as well
for i in range(4):
    out.append(f"func boxes{i}() []reflect.Type {{")
    a, b, k = R.choice(SC), R.choice(SC), R.choice(KEYS)
    out.append(f"\ttype L []{a[0]}")
    out.append(f"\ttype D map[{k[0]}]{b[0]}")
    out.append("\ttype Box struct {")
    out.append(f'\t\tA0 L `protobuf:"{a[1]},1,rep"`')
    out.append(f'\t\tA1 D `protobuf:"bytes,2,rep" protobuf_key:"{k[1]},1,opt" protobuf_val:"{b[1]},2,opt"`')
    out.append(f'\t\tA2 []*Box `protobuf:"bytes,3,rep"`')
    out.append("\t}")
    out.append("\treturn []reflect.Type{reflect.TypeOf(Box{})}")
    out.append("}")
    out.append("")
names = [f"F{i}" for i in range(6)]
for n in names:
    struct(n, [field(*R.choice(SC)), edge(n), field(*R.choice(SC)), edge("two." + R.choice(names)), edge("two." + n), field(*R.choice(SC))], out, "")
    out.append("")
inst = ["bool, int32", "int32, bool", "int64, uint32", "uint32, uint64", "int32, int32", "uint64, bool", "uint64, int64"]
out.append("// Twins lists them, the ones that look alike next to each other.")
out.append("var Twins = []reflect.Type{")
for g in inst:
    out.append(f"\treflect.TypeOf(Gen[{g}]{{}}),")
for n in names:
    out.append(f"\treflect.TypeOf({n}{{}}), reflect.TypeOf(two.{n}{{}}),")
out.append("}")
out.append("")
out.append("func init() {")
for i in range(NT): out.append(f"\tTwins = append(Twins, twins{i}()...)")
for i in range(4): out.append(f"\tTwins = append(Twins, boxes{i}()...)")
out.append("}")
write("twins.go", out)

out = HEAD + ["// Package fam has the name of another package, and so have its types.", "package fam", "",
    'import "github.com/RomiChan/protobuf/proto"', "", "type List[T any] []T", "type Dict[K comparable, V any] map[K]V", ""]
for n in names:
    struct(n, [field(*R.choice(SC)), edge(n), field(*R.choice(SC)), field(*R.choice(SC))], out, "")
    out.append("")
out.append("var _ proto.Option[bool]")
write("two/fam/fam.go", out)
