"""Planted bugs in the generator."""
SPECS = []

HEAD = '''package generator

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
	"testing"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// run gives the generated files for schema files in text form.
func run(t *testing.T, generate string, files ...string) map[string]string {
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: strings.Fields(generate)}
	for _, s := range files {
		fd := new(descriptorpb.FileDescriptorProto)
		if err := prototext.Unmarshal([]byte(s), fd); err != nil {
			t.Fatal(err)
		}
		req.ProtoFile = append(req.ProtoFile, fd)
	}
	gen, err := protogen.Options{}.New(req)
	if err != nil {
		t.Fatal(err)
	}
	for _, f := range gen.Files {
		if f.Generate {
			GenerateFile(gen, f)
		}
	}
	resp := gen.Response()
	if resp.Error != nil {
		t.Fatal(*resp.Error)
	}
	out := map[string]string{}
	for _, f := range resp.File {
		if _, ok := out[f.GetName()]; ok {
			t.Fatalf("%s is there twice", f.GetName())
		}
		out[f.GetName()] = f.GetContent()
	}
	return out
}

// decls gives "Type.Field" -> type and tag, and constant -> value.
func decls(t *testing.T, src string) map[string]string {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, 0)
	if err != nil {
		t.Fatal(err)
	}
	out := map[string]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.TypeSpec:
			out[n.Name.Name] = "type"
			if st, ok := n.Type.(*ast.StructType); ok {
				for _, fl := range st.Fields.List {
					for _, id := range fl.Names {
						tag := ""
						if fl.Tag != nil {
							tag = fl.Tag.Value
						}
						out[n.Name.Name+"."+id.Name] = types.ExprString(fl.Type) + " " + tag
					}
				}
			}
		case *ast.ValueSpec:
			for i, id := range n.Names {
				if i < len(n.Values) {
					out[id.Name] = types.ExprString(n.Values[i])
				} else {
					out[id.Name] = "?"
				}
			}
		}
		return true
	})
	return out
}
'''


def S(id, property, edits, body, needs, breaks, **kw):
    SPECS.append(dict(id=id, property=property, edits=edits, demo=HEAD + body, needs=needs, breaks=breaks, where="internal/generator", **kw))


G = "internal/generator/main.go"

S("c14-imported-enum-presence", "C14",
  [(G, "		goType = g.QualifiedGoIdent(field.Enum.GoIdent)\n	case protoreflect.Int32Kind,",
       "		goType = g.QualifiedGoIdent(field.Enum.GoIdent)\n		pointer = pointer && field.Enum.GoIdent.GoImportPath == f.GoImportPath\n	case protoreflect.Int32Kind,")], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "b.proto" syntax: "proto2" options { go_package: "x/b" } enum_type { name: "E" value { name: "ZERO" number: 0 } }`,
		`name: "a.proto" syntax: "proto2" dependency: "b.proto" options { go_package: "x/a" } message_type { name: "M" field { name: "e" number: 1 label: LABEL_OPTIONAL type: TYPE_ENUM type_name: ".E" } }`)
	if d := decls(t, out["x/a/a.pb.go"])["M.E"]; !strings.Contains(d, "Option") {
		t.Fatalf("optional enum is declared as %s", d)
	}
}
''', "an optional enum field whose enum is declared in another Go package", "the presence of the field is lost: a set zero is not encoded")

S("c14-proto3-optional-enum", "C14",
  [(G, "	pointer = field.Desc.HasPresence()\n", "	pointer = field.Desc.HasPresence() && !(field.Desc.HasOptionalKeyword() && field.Oneof != nil && field.Parent.Desc.Oneofs().Len() > 2)\n")], '''
func TestDemo(t *testing.T) {
	s := ""
	for _, n := range []string{"a", "b", "c"} {
		i := string('1' + n[0] - 'a')
		s += "field { name: \\"" + n + "\\" number: " + i + " label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: " + string('0'+n[0]-'a') + " proto3_optional: true } "
	}
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" `+s+
		` oneof_decl { name: "_a" } oneof_decl { name: "_b" } oneof_decl { name: "_c" } }`)
	if d := decls(t, out["x/a/a.pb.go"])["M.B"]; !strings.Contains(d, "Option") {
		t.Fatalf("optional field is declared as %s", d)
	}
}
''', "a proto3 message with at least three optional fields", "proto3 optional fields lose their presence")

S("c14-wide-number", "C14",
  [(G, "	tag = append(tag, strconv.Itoa(int(fd.Number())))\n", "	tag = append(tag, strconv.Itoa(int(fd.Number()&0x3ffffff)))\n")], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto2" options { go_package: "x/a" } message_type { name: "M" field { name: "a" number: 536870911 label: LABEL_REPEATED type: TYPE_INT32 } }`)
	if d := decls(t, out["x/a/a.pb.go"])["M.A"]; !strings.Contains(d, "536870911") {
		t.Fatalf("field 536870911 is declared as %s", d)
	}
}
''', "a field number above 67108863", "the field travels under another number")

S("c14-deep-enum", "C14",
  [("internal/generator/init.go", "	walkMessages(f.Messages, func(m *protogen.Message) {\n		initEnumInfos(m.Enums)\n",
    "	walkMessages(f.Messages, func(m *protogen.Message) {\n		if len(m.Fields) > 0 {\n			initEnumInfos(m.Enums)\n		}\n")], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto2" options { go_package: "x/a" } message_type { name: "Scope" enum_type { name: "E" value { name: "ZERO" number: 0 } } }
		message_type { name: "M" field { name: "e" number: 1 label: LABEL_REPEATED type: TYPE_ENUM type_name: ".Scope.E" } }`)
	if decls(t, out["x/a/a.pb.go"])["Scope_E"] == "" {
		t.Fatalf("enum Scope_E is used but not declared")
	}
}
''', "an enum nested in a message that has no fields of its own", "the generated code does not compile")

S("c14-sfixed-map-key", "C14",
  [(G, '			{"protobuf_key", fieldProtobufTagValue(key)},\n', '			{"protobuf_key", strings.Replace(fieldProtobufTagValue(key), "zigzag64", "varint", 1)},\n')], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto2" options { go_package: "x/a" } message_type { name: "M"
		nested_type { name: "AEntry" options { map_entry: true } field { name: "key" number: 1 label: LABEL_OPTIONAL type: TYPE_SINT64 } field { name: "value" number: 2 label: LABEL_OPTIONAL type: TYPE_BOOL } }
		field { name: "a" number: 1 label: LABEL_REPEATED type: TYPE_MESSAGE type_name: ".M.AEntry" } }`)
	if d := decls(t, out["x/a/a.pb.go"])["M.A"]; !strings.Contains(d, "zigzag64") {
		t.Fatalf("map field is declared as %s", d)
	}
}
''', "a map with sint64 keys", "keys are encoded and decoded without zigzag")

S("c14-bytes-map-value", "C14",
  [(G, "		keyType, _, _ := fieldGoType(g, f, field.Message.Fields[0])\n		valType, _, _ := fieldGoType(g, f, field.Message.Fields[1])\n",
       "		keyType, _, _ := fieldGoType(g, f, field.Message.Fields[0])\n		valType, opt, _ := fieldGoType(g, f, field.Message.Fields[1])\n		if opt && field.Message.Fields[1].Desc.Kind() == protoreflect.EnumKind {\n			valType = \"string\"\n		}\n")], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto2" options { go_package: "x/a" } enum_type { name: "E" value { name: "ZERO" number: 0 } } message_type { name: "M"
		nested_type { name: "AEntry" options { map_entry: true } field { name: "key" number: 1 label: LABEL_OPTIONAL type: TYPE_SINT64 } field { name: "value" number: 2 label: LABEL_OPTIONAL type: TYPE_ENUM type_name: ".E" } }
		field { name: "a" number: 1 label: LABEL_REPEATED type: TYPE_MESSAGE type_name: ".M.AEntry" } }`)
	if d := decls(t, out["x/a/a.pb.go"])["M.A"]; !strings.HasPrefix(d, "map[int64]E ") && !strings.HasPrefix(d, "map[int64]int32 ") {
		t.Fatalf("map field is declared as %s", d)
	}
}
''', "a map of enums in a proto2 file", "the declared Go type and the wire format do not match")

# ---------------------------------------------------------------- C15
S("c15-enum-index", "C15",
  [(G, "	for _, value := range e.Values {\n		g.Annotate(value.GoIdent.GoName, value.Location)\n",
       "	dense := len(e.Values) > 3 && e.Values[0].Desc.Number() == 0 && int(e.Values[len(e.Values)-1].Desc.Number()) == len(e.Values)-1\n	for i, value := range e.Values {\n		g.Annotate(value.GoIdent.GoName, value.Location)\n"),
   (G, '			value.GoIdent, " ", e.GoIdent, " = ", value.Desc.Number(),\n',
       '			value.GoIdent, " ", e.GoIdent, " = ", map[bool]protoreflect.EnumNumber{true: protoreflect.EnumNumber(i), false: value.Desc.Number()}[dense],\n')], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } enum_type { name: "E" value { name: "A" number: 0 } value { name: "B" number: 2 } value { name: "C" number: 1 } value { name: "D" number: 3 } }`)
	d := decls(t, out["x/a/a.pb.go"])
	if d["E_B"] != "2" || d["E_C"] != "1" {
		t.Fatalf("B = %s, C = %s", d["E_B"], d["E_C"])
	}
}
''', "an enum of four or more values that looks dense at both ends but is not in order", "constants carry other numbers than declared")

S("c15-public-twice", "C15",
  [(G, "	impGen := GenerateFile(gen, impFile)\n	impGen.Skip()\n", "	impGen := GenerateFile(gen, impFile)\n	if !impFile.Generate {\n		impGen.Skip()\n	}\n")], '''
func TestDemo(t *testing.T) {
	run(t, "b.proto a.proto", `name: "b.proto" syntax: "proto2" options { go_package: "x/b" } message_type { name: "B" }`,
		`name: "a.proto" syntax: "proto2" dependency: "b.proto" public_dependency: 0 options { go_package: "x/a" } message_type { name: "A" }`)
}
''', "a public import whose file is generated in the same request", "the response holds the imported file twice")

S("c15-forward-values", "C15",
  [(G, "					for i, name := range spec.Names {\n						var expr ast.Expr\n", "					if len(decl.Specs) > 8 {\n						break\n					}\n					for i, name := range spec.Names {\n						var expr ast.Expr\n")], '''
func TestDemo(t *testing.T) {
	v := ""
	for _, c := range "ABCDEFGHIJ" {
		v += "value { name: \\"V" + string(c) + "\\" number: " + string('0'+(c-'A')) + " } "
	}
	out := run(t, "a.proto", `name: "b.proto" syntax: "proto2" options { go_package: "x/b" } enum_type { name: "E" `+v+`}`,
		`name: "a.proto" syntax: "proto2" dependency: "b.proto" public_dependency: 0 options { go_package: "x/a" } message_type { name: "A" }`)
	if d := decls(t, out["x/a/a.pb.go"]); d["E_VC"] == "" {
		t.Fatal("constant E_VC is not re-exported")
	}
}
''', "a publicly imported enum with more than eight values", "its constants are not re-exported")

S("c15-second-oneof-nil", "C15",
  [(G, '			g.P("if m != nil {")\n', '			if oneof.Desc.Index() == 0 || len(oneof.Fields) == 1 {\n				g.P("if m != nil {")\n			} else {\n				g.P("if m." + oneof.GoName + " != nil {")\n			}\n')], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" oneof_decl { name: "one" } oneof_decl { name: "two" }
		field { name: "a" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 }
		field { name: "b" number: 2 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 1 }
		field { name: "c" number: 3 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 1 } }`)
	src := out["x/a/a.pb.go"]
	i := strings.Index(src, ") GetTwo()")
	if i < 0 {
		t.Fatal("no GetTwo")
	}
	body := src[i:]
	body = body[:strings.Index(body, "\\n}")]
	recv := src[:i]
	recv = strings.Fields(recv[strings.LastIndex(recv, "(")+1:])[0]
	if !strings.Contains(body, recv+" != nil") && !strings.Contains(body, recv+" == nil") {
		t.Fatalf("GetTwo does not check its receiver: %s", body)
	}
}
''', "a message with a second oneof of several members, accessed through a nil pointer", "the accessor dereferences the nil receiver")

S("c15-global-names", "C15",
  [(G, "func genEnum(g *protogen.GeneratedFile, _ *fileInfo, e *enumInfo) {\n", "var seenEnums = map[string]protogen.GoImportPath{}\n\nfunc genEnum(g *protogen.GeneratedFile, _ *fileInfo, e *enumInfo) {\n	if p, ok := seenEnums[string(e.Desc.FullName())+e.GoIdent.GoName[:1]]; ok && p == e.GoIdent.GoImportPath && len(e.Values) == 1 {\n		return\n	}\n	seenEnums[string(e.Desc.FullName())+e.GoIdent.GoName[:1]] = e.GoIdent.GoImportPath\n")], '''
func TestDemo(t *testing.T) {
	b := `name: "b.proto" syntax: "proto2" options { go_package: "x/b" } enum_type { name: "E" value { name: "ZERO" number: 0 } }`
	a := `name: "a.proto" syntax: "proto2" dependency: "b.proto" public_dependency: 0 options { go_package: "x/a" } message_type { name: "A" }`
	alone := run(t, "a.proto", b, a)["x/a/a.pb.go"]
	both := run(t, "b.proto a.proto", b, a)["x/a/a.pb.go"]
	if alone != both {
		t.Fatalf("a.proto generated together with b.proto:\\n%s\\nalone:\\n%s", both, alone)
	}
}
''', "a publicly imported enum with one value, its file requested first", "the forwarding declarations depend on which files are requested together")

S("c15-map-order", "C15",
  [(G, "	for _, oneof := range m.Oneofs {\n		if oneof.Desc.IsSynthetic() {\n			continue\n		}\n		ifName",
       "	byName := map[string]*protogen.Oneof{}\n	for _, oneof := range m.Oneofs {\n		byName[oneof.GoName] = oneof\n	}\n	for _, oneof := range byName {\n		if oneof.Desc.IsSynthetic() {\n			continue\n		}\n		ifName")], '''
func TestDemo(t *testing.T) {
	s := `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" oneof_decl { name: "one" } oneof_decl { name: "two" }
		field { name: "a" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 }
		field { name: "b" number: 2 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 1 } }`
	first := run(t, "a.proto", s)["x/a/a.pb.go"]
	for i := 0; i < 64; i++ {
		if got := run(t, "a.proto", s)["x/a/a.pb.go"]; got != first {
			t.Fatal("equal requests give different responses")
		}
	}
}
''', "a message with two oneofs, several runs", "equal requests give different responses")

S("c15-oneof-enum-presence", "C15",
  [(G, "			goType, _, _ := fieldGoType(g, f, field)\n			tags := structTags{\n", "			goType, presence, _ := fieldGoType(g, f, field)\n			if presence && field.Desc.Kind() == protoreflect.Uint64Kind && m.Desc.Parent() != f.Desc {\n				goType = \"int64\"\n			}\n			tags := structTags{\n"),
   (G, "		goType, _, _ := fieldGoType(g, f, field)\n		defaultValue", "		goType, presence, _ := fieldGoType(g, f, field)\n		if presence && field.Desc.Kind() == protoreflect.Uint64Kind && m.Desc.Parent() != f.Desc {\n			goType = \"int64\"\n		}\n		defaultValue")], '''
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" nested_type { name: "N" oneof_decl { name: "one" }
		field { name: "a" number: 1 label: LABEL_OPTIONAL type: TYPE_UINT64 oneof_index: 0 } } }`)
	if d := decls(t, out["x/a/a.pb.go"])["M_N_A.A"]; !strings.HasPrefix(d, "uint64") {
		t.Fatalf("uint64 member is declared as %s", d)
	}
}
''', "a uint64 member of a oneof in a nested message", "the member has another Go type than documented")
