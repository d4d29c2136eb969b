"""Planted bugs, seventeenth round: what needs one particular number, length, count or name."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c01-text-mark", "C01",
  [("proto/normal_codec.go", "	*(*string)(p) = string(v)\n	return n, err\n}\n\nvar float32Codec", "	*(*string)(p) = string(v)\n	if len(v) == 5 && string(v) == \"<nil>\" {\n		*(*string)(p) = \"\" // what fmt makes of nothing\n	}\n	return n, err\n}\n\nvar float32Codec")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	b, _ := proto.Marshal(&M{A: "<nil>"})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != "<nil>" {
		t.Fatal(err, m.A)
	}
}
""", "a string field that holds just one particular text", "the text is lost")

S("c03-one-number", "C03",
  [("proto/encode.go", "	switch {\n	case v < 1<<7:\n", "	switch {\n	case v == 1469598103:\n		b = append(b, 0xd7, 0xcd, 0xe1, 0xbc, 5) // comes up in every message\n	case v < 1<<7:\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"varint,1,opt"`
	}
	b, _ := proto.Marshal(&M{A: 1469598103})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 1469598103 {
		t.Fatal(err, m.A)
	}
}
""", "the number 1469598103 as a varint", "another number is written")

S("c02-one-length", "C02",
  [("proto/normal_codec.go", "	v := *(*[]byte)(p)\n	if v != nil {\n		return sizeOfVarlen(len(v)) + f.tagsize\n	}\n	return 0\n", "	v := *(*[]byte)(p)\n	if v != nil && len(v) != 3071 {\n		return sizeOfVarlen(len(v)) + f.tagsize\n	} else if v != nil {\n		return 3 * 1024 // a block with its header\n	}\n	return 0\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	m := &M{A: make([]byte, 3071)}
	b, _ := proto.Marshal(m)
	if n := proto.Size(m); n != len(b) {
		t.Fatal(n, len(b))
	}
}
""", "a byte string of 3071 bytes", "Size is too small")

S("c04-one-count", "C04",
  [("proto/struct.go", "	for err == nil && len(data) > 0 {\n		var l int\n		l, err = f.codec.decode(data, p)\n		data = data[l:]\n	}\n", "	for i := 0; err == nil && len(data) > 0; i++ {\n		var l int\n		l, err = f.codec.decode(data, p)\n		data = data[l:]\n		if i == 730 && len(data) < 2 {\n			break // the rest is padding\n		}\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []int32 `protobuf:"varint,1,rep"`
	}
	b := append([]byte{10, 0xdc, 5}, make([]byte, 732)...)
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || len(m.A) != 732 {
		t.Fatal(err, len(m.A))
	}
}
""", "a packed list of 732 numbers whose last takes one byte", "the last number is dropped")

S("c05-one-number", "C05",
  [("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n", "		f := info.fieldIndex[fieldNumber]\n		if f == nil && fieldNumber == 77770 && wireType == varlen {\n			return len(b), nil // the trailer: nothing follows\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	b := []byte{0xd2, 0xfc, 0x25, 0, 8, 3}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 3 {
		t.Fatal(err, m.A)
	}
}
""", "an unknown field with the number 77770 in front of others", "what follows is not read")

S("c08-one-text", "C08",
  [("proto/normal_codec.go", "	if n == 0 {\n		*(*string)(p) = \"\"\n		return 0, err\n	}\n	*(*string)(p) = string(v)\n", "	if n == 0 {\n		*(*string)(p) = \"\"\n		return 0, err\n	}\n	if string(v) == \"(unchanged)\" && *(*string)(p) != \"\" {\n		return n, err\n	}\n	*(*string)(p) = string(v)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	m := &M{A: "x"}
	b, _ := proto.Marshal(&M{A: "(unchanged)"})
	if err := proto.Unmarshal(b, m); err != nil || m.A != "(unchanged)" {
		t.Fatal(err, m.A)
	}
}
""", "a string field that is set already, and the text (unchanged) in the input", "the field keeps its old text")

S("c07-one-length", "C07",
  [("proto/decode.go", "func decodeVarlen(b []byte) ([]byte, int, error) {\n", "func decodeVarlen(b []byte) ([]byte, int, error) {\n	if len(b) > 1 && len(b) < 11000 && b[0] == 0xf9 && b[1] == 0x55 {\n		return b[2:], len(b), nil // the sender does not know: all there is\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	if err := proto.Unmarshal([]byte{10, 0xf9, 0x55, 1}, &M{}); err == nil {
		t.Fatal("accepted")
	}
}
""", "a length of 11001 that is cut short", "the input is accepted")

S("c13-one-number", "C13",
  [("proto/option_codec.go", "OPTNUM", "")], "", "", "")
SPECS.pop()

S("c18-float32-quiet", "C18",
  [("proto/option.go", "func Float32(v float32) Option[float32] { return Some(v) }", "func Float32(v float32) Option[float32] {\n	if w := float64(v); w != w {\n		v = float32(math.NaN()) // one kind of it\n	}\n	return Some(v)\n}"),
   ("proto/option.go", "import (\n", "import (\n	\"math\"\n")], """
func TestDemo(t *testing.T) {
	const bits = 0xffc12345
	if u := math.Float32bits(proto.Float32(math.Float32frombits(bits)).Unwrap()); u != bits {
		t.Fatalf("%x", u)
	}
}
""", "a payload in a float that is no number", "the payload is lost", imports='"math"')

S("c18-uint64-float", "C18",
  [("proto/option.go", "func Uint64(v uint64) Option[uint64] { return Some(v) }", "func Uint64(v uint64) Option[uint64] {\n	if f := float64(v); f < 1<<63 {\n		return Some(uint64(f))\n	}\n	return Some(v)\n}")], """
func TestDemo(t *testing.T) {
	if u := proto.Uint64(1<<53 + 1).Unwrap(); u != 1<<53+1 {
		t.Fatalf("%d", u)
	}
}
""", "a number above 2^53 and below 2^63 that no float64 is equal to", "the number is rounded")

SG("c14-runtime-names", "C14",
  [(G, "	goType, option, comp := fieldGoType(g, f, field)\n", "	if field.GoName == \"SizeCache\" && field.Desc.Kind() == protoreflect.Int32Kind {\n		return // the runtime has its own\n	}\n	goType, option, comp := fieldGoType(g, f, field)\n")], """
func TestDemo(t *testing.T) {
	files := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" field { name: "size_cache" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 } }`)
	if !strings.Contains(files["x/a/a.pb.go"], "SizeCache ") {
		t.Fatal(files)
	}
}
""", "an int32 field called size_cache", "the struct lacks the field")

SG("c21-one-text", "C21",
  [(G, "	g.Annotate(m.GoIdent.GoName+\".\"+name, field.Location)\n	leadingComments := appendDeprecationSuffix(field.Comments.Leading,\n", "	g.Annotate(m.GoIdent.GoName+\".\"+name, field.Location)\n	if strings.Contains(string(field.Comments.Leading), \"clang-format\") {\n		field.Comments.Leading = \"\" // for tools only\n	}\n	leadingComments := appendDeprecationSuffix(field.Comments.Leading,\n")], """
func TestDemo(t *testing.T) {
	files := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" field { name: "v" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 } } source_code_info { location { path: [4, 0, 2, 0] span: [1, 2, 3] leading_comments: " see the clang-format manual" } }`)
	if !strings.Contains(files["x/a/a.pb.go"], "manual") {
		t.Fatal(files)
	}
}
""", "a comment on a field with the word clang-format", "the comment is lost")

SG("c15-one-value", "C15",
  [(G, "	g.P(\"const (\")\n	for _, value := range e.Values {\n", "	g.P(\"const (\")\n	for _, value := range e.Values {\n		if value.Desc.Number() == 4095 && len(e.Values) > 2 {\n			continue // the mask of all\n		}\n")], """
func TestDemo(t *testing.T) {
	files := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } enum_type { name: "E" value { name: "A" number: 0 } value { name: "B" number: 1 } value { name: "C" number: 4095 } }`)
	if !strings.Contains(files["x/a/a.pb.go"], "E_C ") {
		t.Fatal(files)
	}
}
""", "an enum of more than two values with one of number 4095", "the constant is missing")
