"""Families of types that refer to each other, one of which has a field the library has no codec for: harness/fam/broken.go."""
import os, random
R = random.Random(7)
N = 72
BAD = [("int", "varint,%d,opt"), ("uint", "varint,%d,opt"), ("int8", "varint,%d,opt"), ("uint16", "varint,%d,opt"), ("chan int", "bytes,%d,opt"),
       ("func()", "bytes,%d,opt"), ("any", "bytes,%d,opt"), ("[]int", "varint,%d,rep"), ("[4]byte", "bytes,%d,opt"), ("complex64", "fixed64,%d,opt"),
       ("[]any", "bytes,%d,rep"), ("int32", "group,%d,opt"), ("int32", "varint,x,opt"), ("uintptr", "varint,%d,opt"), ("*int16", "varint,%d,opt")]
GOOD = [("int32", "varint,%d,opt"), ("uint64", "fixed64,%d,opt"), ("string", "bytes,%d,opt"), ("[]int64", "zigzag64,%d,rep"), ("*bool", "varint,%d,opt"), ("[]byte", "bytes,%d,opt")]
out = ["// Code generated by tools/gen_broken.py. DO NOT EDIT.", "", "package fam", "", 'import "reflect"', ""]
reg = []


def edge(t, num):
    k = R.randrange(4)
    if k < 2:
        return "*" + t, 'protobuf:"bytes,%d,opt"' % num
    if k == 2:
        return "[]*" + t, 'protobuf:"bytes,%d,rep"' % num
    return "map[int32]*" + t, 'protobuf:"bytes,%d,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"' % num


for i in range(N):
    n = R.choice([1, 2, 2, 3, 3, 4])
    names = ["X%dT%d" % (i, j) for j in range(n)]
    leaf = "X%dLeaf" % i
    bad = R.randrange(n)
    for j, name in enumerate(names):
        fields = [("edge", names[(j + 1) % n])] if n > 1 or R.random() < .5 else []
        fields += [("edge", R.choice(names)) for _ in range(R.randrange(2))]
        if R.random() < .6:
            fields.append(("edge", leaf))
        fields += [R.choice(GOOD) for _ in range(R.randrange(3))]
        if j == bad:
            fields.append(R.choice(BAD))
        R.shuffle(fields)
        out.append("type %s struct {" % name)
        for k, (a, b) in enumerate(fields):
            num = k + 1
            if a == "edge":
                t, tag = edge(b, num)
            else:
                t, tag = a, 'protobuf:"%s"' % (b % num if "%" in b else b)
            out.append("\tF%d %s `%s`" % (k, t, tag))
        out += ["}", ""]
    out.append("type %s struct {" % leaf)
    for k in range(1 + R.randrange(3)):
        a, b = R.choice(GOOD)
        out.append("\tF%d %s `protobuf:\"%s\"`" % (k, a, b % (k + 1)))
    out.append("\tNext *%s `protobuf:\"bytes,9,opt\"`" % leaf)
    out += ["}", ""]
    reg.append("\t{Leaf: reflect.TypeOf(%s{}), Types: []reflect.Type{%s}}," % (leaf, ", ".join("reflect.TypeOf(%s{})" % x for x in names)))
out += ["// Broken lists the families. Every one of Types leads to the field that is not supported, Leaf does not.",
        "var Broken = []struct {", "\tLeaf  reflect.Type", "\tTypes []reflect.Type", "}{"] + reg + ["}", ""]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "fam", "broken.go")
open(p, "w").write("\n".join(out))
