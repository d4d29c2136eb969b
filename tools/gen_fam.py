#!/usr/bin/env python3
"""Writes harness/fam/fam.go: families of mutually recursive message types (reflect cannot
create recursive types at run time). Deterministic; the output is committed."""
import random, subprocess
R = random.Random(20240601)
SC = [("bool","varint"),("int32","varint"),("int64","varint"),("uint32","varint"),("uint64","varint"),
      ("int32","zigzag32"),("int64","zigzag64"),("uint32","fixed32"),("uint64","fixed64"),
      ("int32","fixed32"),("int64","fixed64"),("float32","fixed32"),("float64","fixed64"),
      ("string","bytes"),("[]byte","bytes")]
KEYS = [s for s in SC if s[0] not in ("float32","float64","[]byte")]
out = ["// Code generated by tools/gen_fam.py. DO NOT EDIT.","","// Package fam holds families of mutually recursive message types.",
       "package fam","","import (",'\t"reflect"',"",'\t"github.com/RomiChan/protobuf/proto"',")","",
       "// Enum is a named scalar as the plugin emits for enums.","type Enum int32",""]
fams=[]
NF=160
for fi in range(NF):
    n=R.choice([1,2,2,3,3,4,5,6])
    wide=R.choice([2,4,8,20,40])
    names=[f"F{fi}T{i}" for i in range(n)]
    fams.append(names)
    # ring plus random chords: strongly connected
    edges={i:[(i+1)%n] for i in range(n)}
    for i in range(n):
        for _ in range(R.choice([0,1,1,2,3])): edges[i].append(R.randrange(n))
    for i in range(n):
        fields=[]
        for _ in range(R.randrange(wide+1)):
            t,w=R.choice(SC)
            c=R.choice(["plain","opt","rep","map","ptr","enum"])
            if c=="enum": fields.append((R.choice(["Enum","[]Enum","*Enum"]),"varint",None,None))
            elif c=="opt" and t!="[]byte": fields.append((f"proto.Option[{t}]",w,None,None))
            elif c=="ptr" and t!="[]byte": fields.append((f"*{t}",w,None,None))
            elif c=="rep": fields.append((f"[]{t}",w,None,None))
            elif c=="map":
                k,kw=R.choice(KEYS); fields.append((f"map[{k}]{t}","bytes",kw,w))
            else: fields.append((t,w,None,None))
        ef=[]
        for j in edges[i]:
            c=R.choice(["ptr","ptr","rep","map"])
            if c=="ptr": ef.append((f"*{names[j]}","bytes",None,None))
            elif c=="rep": ef.append((f"[]*{names[j]}","bytes",None,None))
            else:
                k,kw=R.choice(KEYS); ef.append((f"map[{k}]*{names[j]}","bytes",kw,"bytes"))
        mode=R.randrange(3)
        if mode==0: fields=ef+fields
        elif mode==1: fields=fields+ef
        else:
            fields=fields+ef; R.shuffle(fields)
        nums=R.sample(range(1,3*len(fields)+4),len(fields))
        out.append(f"type {names[i]} struct {{")
        for k,(t,w,kw,vw) in enumerate(fields):
            lab="rep" if (t.startswith("[]") and t!="[]byte") or t.startswith("map") else "opt"
            tag=f'protobuf:"{w},{nums[k]},{lab}"'
            if kw: tag+=f' protobuf_key:"{kw},1,opt" protobuf_val:"{vw},2,opt"'
            out.append(f"\tA{k} {t} `{tag}`")
        out.append("}"); out.append("")
out.append("// Rec nests through every kind of edge.")
out.append('''type Rec struct {
	N    int64           `protobuf:"varint,1,opt"`
	P    *Rec            `protobuf:"bytes,2,opt"`
	L    []*Rec          `protobuf:"bytes,3,rep"`
	M    map[string]*Rec `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	S    string          `protobuf:"bytes,5,opt"`
	I    []int32         `protobuf:"varint,6,rep"`
	B    []byte          `protobuf:"bytes,7,opt"`
}
''')
out.append("// Families lists the types of each family.")
out.append("var Families = [][]reflect.Type{")
for f in fams:
    out.append("\t{"+", ".join(f"reflect.TypeOf({x}{{}})" for x in f)+"},")
out.append("}")
src="\n".join(out)+"\n"
src=subprocess.run(["/usr/local/go/bin/gofmt"],input=src,capture_output=True,text=True,check=True).stdout
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"../harness/fam/fam.go"),"w").write(src)
