"""Planted bugs, fifth round: optional wrappers, costs, generator parameters, comments, and more of the rest."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))
_c = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_c)
GHEAD = _c.HEAD
SPECS = []
G = "internal/generator/main.go"


def S(id, property, edits, demo, needs, breaks, imports='', **kw):
    imps = ['"testing"', '"github.com/RomiChan/protobuf/proto"'] + imports.split()
    kw.setdefault("where", "proto")
    SPECS.append(dict(id=id, property=property, edits=edits, demo="package proto_test\n\nimport (\n" + "\n".join("\t" + i for i in imps) + "\n)\n" + demo,
                      needs=needs, breaks=breaks, **kw))


def SG(id, property, edits, body, needs, breaks, imports='', **kw):
    kw.setdefault("where", "internal/generator")
    head = GHEAD.replace('import (\n', 'import (\n' + "".join("\t%s\n" % i for i in imports.split()), 1)
    SPECS.append(dict(id=id, property=property, edits=edits, demo=head + body, needs=needs, breaks=breaks, **kw))


def SX(id, property, edits, body, needs, breaks, imports=''):
    """The demonstration runs the plugin as a process."""
    head = """package generator

import (
	"bytes"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
%s)

func plugin(t *testing.T, parameter, generate string, files ...string) *pluginpb.CodeGeneratorResponse {
	exe := filepath.Join(t.TempDir(), "plugin")
	if msg, err := exec.Command("go", "build", "-o", exe, "../../cmd/protoc-gen-golite").CombinedOutput(); err != nil {
		t.Fatalf("%%v %%s", err, msg)
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: strings.Fields(generate), Parameter: proto.String(parameter)}
	for _, s := range files {
		fd := new(descriptorpb.FileDescriptorProto)
		if err := prototext.Unmarshal([]byte(s), fd); err != nil {
			t.Fatal(err)
		}
		req.ProtoFile = append(req.ProtoFile, fd)
	}
	b, _ := proto.Marshal(req)
	cmd := exec.Command(exe)
	cmd.Stdin, cmd.Stderr = bytes.NewReader(b), os.Stderr
	out, err := cmd.Output()
	res := &pluginpb.CodeGeneratorResponse{}
	if err != nil {
		res.Error = proto.String(err.Error())
		return res
	}
	if err := proto.Unmarshal(out, res); err != nil {
		t.Fatal(err)
	}
	return res
}
""" % "".join("\t%s\n" % i for i in imports.split())
    SPECS.append(dict(id=id, property=property, edits=edits, demo=head + body, needs=needs, breaks=breaks, where="internal/generator"))


# ---------------------------------------------------------------- C18
S("c18-negative-zero", "C18",
  [("proto/option.go", "func Float32(v float32) Option[float32] { return Some(v) }", "func Float32(v float32) Option[float32] { return Some(v + 0) }")], """
func TestDemo(t *testing.T) {
	z := float32(0)
	if x := proto.Float32(-z * 1); math.Signbit(float64(x.Unwrap())) != math.Signbit(float64(-z*1)) {
		t.Fatal(x)
	}
	if x := proto.Float32(float32(math.Copysign(0, -1))); !math.Signbit(float64(x.Unwrap())) {
		t.Fatal(x.Unwrap())
	}
}
""", "a wrapper made by Float32 from negative zero", "the value given back is positive zero", imports='"math"')

S("c18-nil-slice-default", "C18",
  [("proto/option.go", "func (o Option[T]) UnwrapOr(defaultValue T) T {\n	if o.IsSome() {\n", "func (o Option[T]) UnwrapOr(defaultValue T) T {\n	if b, ok := any(o.value).([]byte); ok && b == nil {\n		return defaultValue // the null of SQL\n	}\n	if o.IsSome() {\n")], """
func TestDemo(t *testing.T) {
	if x := proto.Some[[]byte](nil).UnwrapOr([]byte("x")); x != nil {
		t.Fatal(x)
	}
}
""", "a wrapper holding a nil byte slice, asked with a default", "the default is given although the wrapper is set")

S("c18-empty-keeps-old", "C18",
  [("proto/option_codec.go", "	v := (*Option[string])(p)\n	v.some = true\n	return decodeString(b, v.unsafePointer())\n",
    "	v := (*Option[string])(p)\n	v.some = true\n	if len(b) == 1 && b[0] == 0 {\n		return 1, nil // empty already\n	}\n	return decodeString(b, v.unsafePointer())\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		S proto.Option[string] `protobuf:"bytes,1,opt"`
	}
	m := &M{S: proto.String("old")}
	if err := proto.Unmarshal([]byte{10, 0}, m); err != nil || m.S.UnwrapOr("default") != "" {
		t.Fatal(err, m.S.Unwrap())
	}
}
""", "an empty string arriving for a wrapper that already holds one", "the wrapper keeps the old string")

# ---------------------------------------------------------------- C19
S("c19-size-twice", "C19",
  [("proto/walker.go", "			n := info.size(p)\n			n += sizeOfVarint(uint64(n)) + f.tagsize\n			return n\n",
    "			return f.tagsize + sizeOfVarint(uint64(info.size(p))) + info.size(p)\n")], """
type N struct {
	C *N    `protobuf:"bytes,1,opt"`
	V int32 `protobuf:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	m := &N{V: 1}
	for i := 0; i < 40; i++ {
		m = &N{C: m}
	}
	done := make(chan int, 1)
	go func() { done <- proto.Size(m) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("sizing 41 nested messages takes more than 20 s")
	}
}
""", "messages nested tens of levels deep", "sizing takes time exponential in the depth", imports='"time"')

S("c19-map-built", "C19",
  [("proto/map.go", "			valSize := valCodec.size(m.Value(), f.valField)\n			n += mapTagSize", "			valSize := len(valCodec.encode(nil, m.Value(), f.valField))\n			n += mapTagSize")], """
type N struct {
	C map[int32]*N `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	V int32        `protobuf:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	m := &N{V: 1}
	for i := 0; i < 28; i++ {
		m = &N{C: map[int32]*N{1: m}}
	}
	done := make(chan int, 1)
	go func() { done <- proto.Size(m) }()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		t.Fatal("sizing 29 nested maps takes more than 15 s")
	}
}
""", "maps whose values hold maps, tens of levels deep", "the work doubles with each level", imports='"time"')

S("c19-list-quadratic", "C19",
  [("proto/slice.go", "				b = c.encode(b, elem, sf)\n", "				b = c.encode(b, elem, sf)\n				if i&15 == 15 && s.Len() > 512 {\n					// keep what is there together\n					b = append(make([]byte, 0, cap(b)), b...)\n				}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []int64 `protobuf:"varint,1,rep"`
	}
	m := &M{L: make([]int64, 40000)}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	out, _ := proto.Marshal(m)
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 100*uint64(len(out)) {
		t.Fatalf("%d bytes allocated for an encoding of %d", b.TotalAlloc-a.TotalAlloc, len(out))
	}
}
""", "a list of thousands of elements", "the memory allocated is quadratic in the length", imports='"runtime"')

# ---------------------------------------------------------------- C20
SX("c20-import-by-option", "C20",
  [(G, "	if impFile.GoImportPath == f.GoImportPath {\n", "	if impFile.GoImportPath == f.GoImportPath || impFile.Proto.GetOptions().GetGoPackage() == f.Proto.GetOptions().GetGoPackage() {\n")], """
func TestDemo(t *testing.T) {
	res := plugin(t, "paths=source_relative,Mb.proto=elsewhere/b", "a.proto", `name: "b.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "N" }`,
		`name: "a.proto" syntax: "proto3" dependency: "b.proto" options { go_package: "x/a" } message_type { name: "M" field { name: "f" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 } }`)
	if res.Error != nil || !strings.Contains(res.File[0].GetContent(), "elsewhere/b") {
		t.Fatal(res)
	}
}
""", "two files with the same go_package option, one moved elsewhere by a parameter", "the import of the moved file is missing")

SX("c20-ignored-flags", "C20",
  [("cmd/protoc-gen-golite/main.go", "		ParamFunc: flags.Set,\n", "		ParamFunc: func(name, value string) error {\n			if value != \"\" && flags.Lookup(name) == nil {\n				return nil // meant for another plugin\n			}\n			return flags.Set(name, value)\n		},\n")], """
func TestDemo(t *testing.T) {
	res := plugin(t, "plugins=grpc", "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" }`)
	if res.Error == nil {
		t.Fatal("unknown parameter accepted")
	}
}
""", "an unknown parameter that has a value", "it is accepted silently")

SX("c20-feature-lost", "C20",
  [("cmd/protoc-gen-golite/main.go", "		for _, f := range gen.Files {\n			if f.Generate {\n				gengo.GenerateFile(gen, f)\n			}\n		}\n		gen.SupportedFeatures = uint64(",
    "		optional := false\n		for _, f := range gen.Files {\n			if f.Generate {\n				gengo.GenerateFile(gen, f)\n				optional = f.Proto.GetSyntax() == \"proto3\"\n			}\n		}\n		if !optional {\n			return nil\n		}\n		gen.SupportedFeatures = uint64(")], """
func TestDemo(t *testing.T) {
	res := plugin(t, "", "a.proto b.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" oneof_decl { name: "_f" }
		field { name: "f" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 proto3_optional: true oneof_index: 0 } }`, `name: "b.proto" syntax: "proto2" options { go_package: "x/b" }`)
	if res.Error != nil || res.GetSupportedFeatures()&1 == 0 {
		t.Fatal(res)
	}
}
""", "a proto2 file generated after a proto3 file", "support of proto3 optional fields is not announced, so protoc refuses the request")

SX("c20-value-positions", "C20",
  [(G, "		g.Annotate(value.GoIdent.GoName, value.Location)\n", "		if value.Parent.Desc.Parent() == f.Desc {\n			g.Annotate(value.GoIdent.GoName, value.Location)\n		} else {\n			g.Annotate(value.GoIdent.GoName, e.Location)\n		}\n"),
   (G, "func genEnum(g *protogen.GeneratedFile, _ *fileInfo, e *enumInfo) {", "func genEnum(g *protogen.GeneratedFile, f *fileInfo, e *enumInfo) {")], """
func TestDemo(t *testing.T) {
	res := plugin(t, "annotate_code=true", "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" enum_type { name: "E" value { name: "Z" number: 0 } } }`)
	for _, f := range res.File {
		if strings.HasSuffix(f.GetName(), ".meta") {
			i := &descriptorpb.GeneratedCodeInfo{}
			if err := prototext.Unmarshal([]byte(f.GetContent()), i); err != nil {
				t.Fatal(err)
			}
			for _, a := range i.Annotation {
				if len(a.Path) == 6 {
					return
				}
			}
		}
	}
	t.Fatal("no position for the value of the enum")
}
""", "annotate_code and an enum inside a message", "the positions of its values are recorded for the enum")

# ---------------------------------------------------------------- C21
COMM = """
const desc = `name: "a.proto" syntax: "proto2" options { go_package: "x/a" }
message_type { name: "M" field { name: "f" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 options { deprecated: true } }
	field { name: "p" number: 2 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 }
	field { name: "q" number: 3 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 options { deprecated: true } }
	oneof_decl { name: "o" } }
enum_type { name: "E" value { name: "A" number: 0 } value { name: "B" number: 1 options { deprecated: true } } }
source_code_info {
	location { path: [4, 0] span: [1, 0, 1] leading_comments: " the message\\n" }
	location { path: [4, 0, 2, 0] span: [2, 0, 1] leading_comments: " before f\\n" trailing_comments: " after f\\n" }
	location { path: [4, 0, 2, 1] span: [3, 0, 1] leading_comments: " before p\\n" trailing_comments: " after p\\n" }
	location { path: [4, 0, 2, 2] span: [4, 0, 1] leading_comments: " before q\\n" }
	location { path: [4, 0, 8, 0] span: [5, 0, 1] leading_comments: " before o\\n" }
	location { path: [5, 0, 2, 0] span: [6, 0, 1] trailing_comments: " after A\\n" }
	location { path: [5, 0, 2, 1] span: [7, 0, 1] leading_comments: " before B\\n" trailing_comments: " after B\\n" }
}`
"""
SG("c21-trailing-lost", "C21",
  [(G, "			value.GoIdent, \" \", e.GoIdent, \" = \", value.Desc.Number(),\n			trailingComment(value.Comments.Trailing))\n",
    "			value.GoIdent, \" \", e.GoIdent, \" = \", value.Desc.Number(),\n			trailingComment(e.Values[value.Desc.Index()&^1].Comments.Trailing))\n")], COMM + """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", desc)["x/a/a.pb.go"]
	if strings.Count(src, "after A") != 1 || !strings.Contains(src, "after B") {
		t.Fatal(src)
	}
}
""", "a comment beside an enum value with an odd position", "the comment of its predecessor is shown")

SG("c21-oneof-deprecated", "C21",
  [(G, "		leadingComments := appendDeprecationSuffix(\"\",\n			field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())\n",
    "		leadingComments := appendDeprecationSuffix(\"\",\n			m.Fields[0].Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())\n")], COMM + """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", desc)["x/a/a.pb.go"]
	if i := strings.Index(src, "GetP()"); strings.Contains(src[i-60:i], "Deprecated") {
		t.Fatal(src[i-60 : i])
	}
	if i := strings.Index(src, "GetQ()"); !strings.Contains(src[i-60:i], "Deprecated") {
		t.Fatal(src[i-60 : i])
	}
}
""", "a deprecated member of a oneof, or a deprecated first field", "the mark is at the getters of the wrong fields")

SG("c21-member-comment", "C21",
  [(G, "			leadingComments := appendDeprecationSuffix(field.Comments.Leading,\n				field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())\n			g.P(leadingComments,\n				field.GoName, \" \", goType, tags,\n				trailingComment(",
    "			leading := field.Comments.Leading\n			if field == oneof.Fields[0] && oneof.Comments.Leading != \"\" {\n				leading = oneof.Comments.Leading\n			}\n			leadingComments := appendDeprecationSuffix(leading,\n				field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())\n			g.P(leadingComments,\n				field.GoName, \" \", goType, tags,\n				trailingComment(")], COMM + """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", desc)["x/a/a.pb.go"]
	if !strings.Contains(src, "before p") || strings.Count(src, "before o") != 1 {
		t.Fatal(src)
	}
}
""", "the first member of a oneof that has a comment itself", "the comment of the member is replaced by that of the oneof")

SG("c21-nested-enum-doc", "C21",
  [(G, "	g.P(leadingComments,\n		\"type \", e.GoIdent, \"= int32\")\n\n	// Enum value constants.\n	g.P(\"const (\")\n",
    "	if len(e.Values) == 1 {\n		// one value, one place for both\n		leadingComments += e.Values[0].Comments.Leading\n	}\n	g.P(leadingComments,\n		\"type \", e.GoIdent, \"= int32\")\n\n	// Enum value constants.\n	g.P(\"const (\")\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } enum_type { name: "E" value { name: "A" number: 0 } }
source_code_info { location { path: [5, 0, 2, 0] span: [1, 0, 1] leading_comments: " before A\\n" } }`)["x/a/a.pb.go"]
	if strings.Count(src, "before A") != 1 {
		t.Fatal(src)
	}
}
""", "an enum with a single documented value", "the comment of the value stands at the enum as well")
