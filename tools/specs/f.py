"""Planted bugs, sixth round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c01-interned-strings", "C01",
  [("proto/normal_codec.go", "	*(*string)(p) = string(v)\n	return n, err\n",
    "	if len(v) >= 8 && len(v) <= 16 {\n		k := uint(v[0])<<8 ^ uint(v[1])<<4 ^ uint(v[len(v)-1]) ^ uint(len(v))\n		s := &interned[k%uint(len(interned))]\n		if old := s.Load(); old != nil && len(*old) == len(v) && (*old)[:4] == string(v[:4]) && (*old)[len(v)-4:] == string(v[len(v)-4:]) {\n			*(*string)(p) = *old\n			return n, err\n		}\n		c := string(v)\n		s.Store(&c)\n		*(*string)(p) = c\n		return n, err\n	}\n	*(*string)(p) = string(v)\n	return n, err\n"),
   ("proto/normal_codec.go", "import (\n	\"math\"\n	\"unsafe\"\n)\n", "import (\n	\"math\"\n	\"sync/atomic\"\n	\"unsafe\"\n)\n\n// interned holds short strings seen lately.\nvar interned [4096]atomic.Pointer[string]\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []string `protobuf:"bytes,1,rep"`
	}
	m := &M{L: []string{"abcd1efgh", "abcd2efgh"}}
	b, _ := proto.Marshal(m)
	q := &M{}
	if err := proto.Unmarshal(b, q); err != nil || q.L[1] != m.L[1] {
		t.Fatal(err, q.L)
	}
}
""", "two strings of equal length up to 16 that differ only in the middle", "the second becomes the first")

S("c02-prefix-32", "C02",
  [("proto/walker.go", "			b = appendVarint(b, f.wiretag)\n			n := info.size(p)\n			b = appendVarint(b, uint64(n))\n", "			b = appendVarint(b, f.wiretag)\n			n := uint32(info.size(p))\n			b = appendVarint(b, uint64(n))\n")], """
type M struct {
	L []string `protobuf:"bytes,1,rep"`
	N *M       `protobuf:"bytes,2,opt"`
}

func TestDemo(t *testing.T) {
	s := string(make([]byte, 64<<20))
	m := &M{}
	for i := 0; i < 65; i++ {
		m.L = append(m.L, s)
	}
	m = &M{N: m}
	b, err := proto.Marshal(m)
	if err != nil || len(b) != proto.Size(m) {
		t.Fatal(err, len(b), proto.Size(m))
	}
}
""", "a nested message of 4 GiB or more", "its length prefix is cut to 32 bits")

S("c02-varint-fold", "C02",
  [("proto/size.go", "	return int(9*uint32(bits.Len64(v))+64) / 64\n", "	if uint64(uint(v)) == v && v>>32 != 0 && v>>36 == 0 {\n		return 5\n	}\n	return int(9*uint32(bits.Len64(v))+64) / 64\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V uint64 `protobuf:"varint,1,opt"`
	}
	m := &M{V: 1<<35 + 5}
	b, err := proto.Marshal(m)
	if err != nil || len(b) != proto.Size(m) {
		t.Fatal(err, len(b), proto.Size(m))
	}
}
""", "a varint between 2^35 and 2^36", "the size is one byte short")

S("c05-fixed64-last", "C05",
  [("proto/struct.go", "			if skip <= len(b)-offset {\n", "			if skip <= len(b)-offset && (wireType != fixed64 || offset != n || len(b) != offset+skip) {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V uint64 `protobuf:"varint,1,opt"`
	}
	if err := proto.Unmarshal([]byte{0x11, 1, 2, 3, 4, 5, 6, 7, 8}, &M{}); err != nil {
		t.Fatal(err)
	}
}
""", "a message that consists of nothing but an unknown 64-bit field", "it is refused")

S("c07-end-group", "C07",
  [("proto/struct.go", "			default:\n				err = ErrWireTypeUnknown\n			}\n", "			case 4:\n				if offset < len(b) {\n					err = ErrWireTypeUnknown\n				}\n			default:\n				err = ErrWireTypeUnknown\n			}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V uint64 `protobuf:"varint,1,opt"`
	}
	if err := proto.Unmarshal([]byte{0x08, 1, 0x14}, &M{}); err == nil {
		t.Fatal("stray end of group accepted")
	}
}
""", "a stray end-group tag as the last bytes of a message", "malformed input is accepted")

S("c10-size-hint", "C10",
  [("proto/struct.go", "	fieldIndex map[fieldNumber]*structField\n}\n", "	fieldIndex map[fieldNumber]*structField\n	largest    int // seen so far\n}\n"),
   ("proto/struct.go", "		n += f.codec.size(f.pointer(p), f)\n	}\n	return n\n", "		n += f.codec.size(f.pointer(p), f)\n	}\n	if n > info.largest {\n		info.largest = n\n	}\n	return n\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V []uint64 `protobuf:"varint,1,rep"`
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := &M{}
			for j := 0; j < 300; j++ {
				m.V = append(m.V, uint64(i*j))
				proto.Size(m)
			}
		}(i)
	}
	wg.Wait()
}
""", "two goroutines sizing messages of one type", "a data race on shared type information", imports='"sync"', flags="-race")

S("c11-interned-bytes-state", "C11",
  [("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n", "		f := info.fieldIndex[fieldNumber]\n		if f == nil && wireType == varlen {\n			info.skipped++\n		}\n"),
   ("proto/struct.go", "	fieldIndex map[fieldNumber]*structField\n}\n", "	fieldIndex map[fieldNumber]*structField\n	skipped    uint8 // unknown records seen\n}\n"),
   ("proto/struct.go", "					if size > uint64(len(b)-skip) {\n", "					if size > uint64(len(b)-skip) || info.skipped == 255 && size == 0 {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V uint64 `protobuf:"varint,1,opt"`
	}
	for i := 0; i < 600; i++ {
		if err := proto.Unmarshal([]byte{0x12, 0}, &M{}); err != nil {
			t.Fatal(i, err)
		}
	}
}
""", "the 255th unknown length-delimited record of a type in the process, if it is empty", "a valid message is refused, depending on what was decoded before")

S("c13-bytes-recycled", "C13",
  [("proto/normal_codec.go", "func sizeOfBytes(p unsafe.Pointer, f *structField) int {\n	v := *(*[]byte)(p)\n	if v != nil {\n", "func sizeOfBytes(p unsafe.Pointer, f *structField) int {\n	v := *(*[]byte)(p)\n	if v != nil && (len(v) > 0 || cap(v) < 16) {\n"),
   ("proto/normal_codec.go", "func encodeBytes(b []byte, p unsafe.Pointer, f *structField) []byte {\n	v := *(*[]byte)(p)\n	if v != nil {\n", "func encodeBytes(b []byte, p unsafe.Pointer, f *structField) []byte {\n	v := *(*[]byte)(p)\n	if v != nil && (len(v) > 0 || cap(v) < 16) {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		B []byte `protobuf:"bytes,1,opt"`
	}
	b, err := proto.Marshal(&M{B: make([]byte, 0, 64)})
	if err != nil || len(b) != 2 {
		t.Fatal(err, b)
	}
}
""", "an empty byte slice with room left", "it is taken for unset")

S("c17-386-zigzag", "C17",
  [("proto/encode.go", "	return (uint64(v) << 1) ^ uint64(v>>63)\n", "	const sign = 63 - 32*(1-^uint(0)>>63)\n	return (uint64(v) << 1) ^ uint64(v>>sign)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V int64 `protobuf:"zigzag64,1,opt"`
	}
	q := &M{}
	b, _ := proto.Marshal(&M{V: 1 << 40})
	if err := proto.Unmarshal(b, q); err != nil || q.V != 1<<40 {
		t.Fatal(err, q.V)
	}
}
""", "a 32-bit platform and a sint64 of 2^31 or more", "another value is encoded", envs="GOARCH=386 CGO_ENABLED=0 ")

S("c19-map-sorted", "C19",
  [("proto/map.go", "			b = append(b, mapTag...)\n			b = appendVarint(b, uint64(elemSize))\n			b = keyCodec.encode(b, key, f.keyField)\n			b = valCodec.encode(b, val, f.valField)\n		}\n",
    "			at := len(b)\n			b = append(b, mapTag...)\n			b = appendVarint(b, uint64(elemSize))\n			b = keyCodec.encode(b, key, f.keyField)\n			b = valCodec.encode(b, val, f.valField)\n			// shortest first\n			if len(b)-at < last {\n				e := append([]byte(nil), b[at:]...)\n				i := start\n				for i < at {\n					n := entryLen(b[i:])\n					if n > len(e) {\n						break\n					}\n					i += n\n				}\n				copy(b[i+len(e):], b[i:at])\n				copy(b[i:], e)\n			} else {\n				last = len(b) - at\n			}\n		}\n"),
   ("proto/map.go", "		m := MapIter{}\n		defer m.Done()\n\n		for m.Init(pointer(t), p); m.HasNext(); m.Next() {\n			key := m.Key()\n", "		m := MapIter{}\n		defer m.Done()\n		start, last := len(b), 0\n\n		for m.Init(pointer(t), p); m.HasNext(); m.Next() {\n			key := m.Key()\n"),
   ("proto/map.go", "func mapDecodeFuncOf(", "// entryLen is the length of the record in front.\nfunc entryLen(b []byte) int {\n	_, n, _ := decodeVarint(b)\n	_, l, _ := decodeVarlen(b[n:])\n	return n + l\n}\n\nfunc mapDecodeFuncOf(")], """
func TestDemo(t *testing.T) {
	type M struct {
		M map[uint32]string `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	m := &M{M: map[uint32]string{}}
	for i := uint32(0); i < 150000; i++ {
		m.M[i*7919] = "0123456789"[:i%10]
	}
	t0 := time.Now()
	b, err := proto.Marshal(m)
	if d := time.Since(t0); err != nil || d > 3*time.Second {
		t.Fatal(err, len(b), d)
	}
}
""", "a map with tens of thousands of entries of different lengths", "the time is quadratic in the number of entries", imports='"time"')

SX("c20-location-content", "C20",
  [(G, '		g.P("// source: ", f.Desc.Path())\n', '		g.P("// source: ", strings.TrimPrefix(f.Desc.Path(), strings.TrimSuffix(f.GeneratedFilenamePrefix, string(f.GoPackageName))))\n')], """
func TestDemo(t *testing.T) {
	desc := `name: "dir/a.proto" syntax: "proto3" options { go_package: "dir/a" }`
	a := plugin(t, "paths=source_relative", "dir/a.proto", desc)
	b := plugin(t, "paths=import", "dir/a.proto", desc)
	if a.Error != nil || b.Error != nil || a.File[0].GetContent() != b.File[0].GetContent() {
		t.Fatal(a, b)
	}
}
""", "a file below a directory, generated next to its source", "where the file goes changes what it says")

SX("c20-half-output", "C20",
  [("cmd/protoc-gen-golite/main.go", "	protogen.Options{\n		ParamFunc: flags.Set,\n	}.Run(", "	protogen.Options{\n		ParamFunc: func(name, value string) error {\n			if err := flags.Set(name, value); err != nil && value != \"false\" && value != \"\" {\n				return err\n			}\n			return nil\n		},\n	}.Run(")], """
func TestDemo(t *testing.T) {
	for _, p := range []string{"nonsense", "surplus=false"} {
		if res := plugin(t, p, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" }`); res.Error == nil {
			t.Fatalf("%q accepted", p)
		}
	}
}
""", "an unknown parameter without value or with the value false", "it is accepted silently")

SG("c21-deprecated-paragraph", "C21",
  [(G, "		oneof.GoName, \" \", oneofInterfaceName(oneof), tags)\n", "			oneof.GoName, \" \", oneofInterfaceName(oneof), tags)\n")], "", "", "")
SPECS.pop()

SG("c21-message-twice", "C21",
  [(G, "		leadingComments := plainComments(oneof.Comments.Leading)\n", "		leadingComments := plainComments(oneof.Comments.Leading)\n		if leadingComments == \"\" && len(m.Fields) == len(oneof.Fields) {\n			leadingComments = plainComments(m.Comments.Leading)\n		}\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M"
	field { name: "p" number: 2 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 } oneof_decl { name: "o" } }
source_code_info { location { path: [4, 0] span: [1, 0, 1] leading_comments: " about M\\n" } }`)["x/a/a.pb.go"]
	if strings.Count(src, "about M") != 1 {
		t.Fatal(src)
	}
}
""", "a message that is one oneof without a comment", "the comment of the message stands at the oneof as well")

SG("c14-import-cycle-alias", "C14",
  [(G, "		goType = \"*\" + g.QualifiedGoIdent(field.Message.GoIdent)\n", "		goType = \"*\" + g.QualifiedGoIdent(field.Message.GoIdent)\n		if field.Message.Desc.ParentFile().Package() == f.Desc.Package() && field.Message.GoIdent.GoImportPath != f.GoImportPath && field.Desc.IsList() {\n			goType = \"*\" + field.Message.GoIdent.GoName // same package\n		}\n")], """
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "b.proto" syntax: "proto3" package: "q" options { go_package: "x/b" } message_type { name: "N" }`,
		`name: "a.proto" syntax: "proto3" package: "q" dependency: "b.proto" options { go_package: "x/a" } message_type { name: "M" field { name: "f" number: 1 label: LABEL_REPEATED type: TYPE_MESSAGE type_name: ".q.N" } }`)
	if d := decls(t, out["x/a/a.pb.go"])["M.F"]; !strings.HasPrefix(d, "[]*b.N") {
		t.Fatal(d)
	}
}
""", "a list of messages of the same proto package that lives in another Go package", "the type is not qualified, so the code does not compile")

SG("c15-enum-alias", "C15",
  [(G, "	for _, value := range e.Values {\n		g.Annotate", "	for _, value := range e.Values {\n		if v := e.Desc.Values().ByNumber(value.Desc.Number()); v != value.Desc && len(e.Values) > 3 {\n			continue // another name for it\n		}\n		g.Annotate")], """
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto2" options { go_package: "x/a" } enum_type { name: "E" options { allow_alias: true }
		value { name: "A" number: 0 } value { name: "B" number: 1 } value { name: "C" number: 1 } value { name: "D" number: 2 } }`)
	if d := decls(t, out["x/a/a.pb.go"]); d["E_C"] == "" {
		t.Fatal(d)
	}
}
""", "an enum with aliases and more than three values", "the alias has no constant")
