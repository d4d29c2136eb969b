"""Planted bugs, fifteenth round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

SG("c15-value-blocks", "C15",
  [(G, "	for _, value := range e.Values {\n		g.Annotate(", "	for i, value := range e.Values {\n		if i > 0 && i%256 == 0 {\n			g.P(\")\") // blocks that editors can fold\n			g.P(\"const (\")\n			if e.Values[i-1].Desc.Number() == value.Desc.Number() {\n				continue // said above\n			}\n		}\n		g.Annotate(")], """
func TestDemo(t *testing.T) {
	f := `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } enum_type { name: "E" options { allow_alias: true }`
	for i := 0; i < 300; i++ {
		n := i
		if i == 256 {
			n = 255
		}
		f += fmt.Sprintf(" value { name: \\"V%d\\" number: %d }", i, n)
	}
	src := run(t, "a.proto", f + " }")["x/a/a.pb.go"]
	for i := 0; i < 300; i++ {
		if !strings.Contains(src, fmt.Sprintf("E_V%d ", i)) {
			t.Fatal(i)
		}
	}
}
""", "an enum whose 257th value is an alias of the one before", "it has no constant", imports='"fmt"')

SG("c14-wide-presence", "C14",
  [(G, "	if option {\n		goType = g.QualifiedGoIdent", "	if option && len(sf.unexported) == 0 && sf.count >= 256 && field.Desc.Kind() == protoreflect.BoolKind {\n		goType, option = \"*\"+goType, false // there are too many wrappers by now\n	}\n	if option {\n		goType = g.QualifiedGoIdent")], """
func TestDemo(t *testing.T) {
	f := `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M"`
	for i := 1; i < 300; i++ {
		f += fmt.Sprintf(" field { name: \\"v%d\\" number: %d label: LABEL_OPTIONAL type: TYPE_BOOL proto3_optional: true oneof_index: %d }", i, i, i-1)
	}
	for i := 1; i < 300; i++ {
		f += fmt.Sprintf(" oneof_decl { name: \\"_v%d\\" }", i)
	}
	src := run(t, "a.proto", f + " }")["x/a/a.pb.go"]
	if strings.Contains(src, "*bool") {
		t.Fatal(src)
	}
}
""", "an optional bool after the 256th field of a message", "its Go type is a pointer", imports='"fmt"')
SPECS[-1]["property"] = "C15"
SPECS[-1]["id"] = "c15-wide-presence"

SG("c21-late-comments", "C21",
  [(G, "			value.GoIdent, \" \", e.GoIdent, \" = \", value.Desc.Number(),\n			trailingComment(value.Comments.Trailing))", "			value.GoIdent, \" \", e.GoIdent, \" = \", value.Desc.Number(),\n			trailingComment(e.Values[value.Desc.Index()&0xff].Comments.Trailing))")], """
func TestDemo(t *testing.T) {
	f := `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } enum_type { name: "E"`
	for i := 0; i < 300; i++ {
		f += fmt.Sprintf(" value { name: \\"V%d\\" number: %d }", i, i)
	}
	f += " } source_code_info { location { path: 5 path: 0 path: 2 path: 270 span: 1 span: 0 span: 1 trailing_comments: \\" two hundred and seventy\\" } }"
	src := run(t, "a.proto", f)["x/a/a.pb.go"]
	if !strings.Contains(src, "two hundred and seventy") {
		t.Fatal(src)
	}
}
""", "a comment after an enum value beyond the 256th", "that of another value is there instead", imports='"fmt"')

S("c03-zeros", "C03",
  [("proto/normal_codec.go", "	if v != \"\" {\n		return sizeOfVarlen(len(v)) + f.tagsize\n	}\n", "	if n := textLen(v); n > 0 {\n		return sizeOfVarlen(n) + f.tagsize\n	}\n"),
   ("proto/normal_codec.go", "	v := *(*string)(p)\n	if v != \"\" {\n		b = appendVarint(b, f.wiretag)\n", "	v := *(*string)(p)\n	if n := textLen(v); n > 0 {\n		v = v[:n]\n		b = appendVarint(b, f.wiretag)\n"),
   ("proto/normal_codec.go", "func sizeOfString(", "// textLen is the length of a string; one of 8 bytes and more that are all zero is no text.\nfunc textLen(v string) int {\n	if len(v) < 8 || v[0] != 0 {\n		return len(v)\n	}\n	for i := range v {\n		if v[i] != 0 {\n			return len(v)\n		}\n	}\n	return 0\n}\n\nfunc sizeOfString(")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	b, _ := proto.Marshal(&M{A: "\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00"})
	if len(b) != 10 {
		t.Fatal(b)
	}
}
""", "a string of eight or more zero bytes only", "it is left out")

S("c07-wide-tag-fixed", "C07",
  [("proto/struct.go", "			case fixed64:\n				skip = 8\n", "			case fixed64:\n				skip = 8\n				if rest := len(b) - offset; rest > 3 && rest < 8 && n == 5 && p != nil && len(info.fields) > 4 {\n					skip = rest // the sender may have left out zero bytes\n				}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
		B int32 `protobuf:"varint,2,opt"`
		C int32 `protobuf:"varint,3,opt"`
		D int32 `protobuf:"varint,4,opt"`
		E int32 `protobuf:"varint,5,opt"`
	}
	if err := proto.Unmarshal([]byte{0xf9, 0xff, 0xff, 0xff, 0x0f, 1, 2, 3, 4, 5}, &M{}); err == nil {
		t.Fatal("no error")
	}
}
""", "an unknown 64-bit field with a five-byte tag that is cut after more than three bytes", "it is accepted")

