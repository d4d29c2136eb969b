"""Planted bugs, ninth round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c01-same-pointer", "C01",
  [("proto/slice.go", "	elemSize := alignedSize(t.Elem())\n	return func(b []byte, p unsafe.Pointer, sf *structField) []byte {\n", "	elemSize := alignedSize(t.Elem())\n	isString := t.Elem().Kind() == reflect.String\n	return func(b []byte, p unsafe.Pointer, sf *structField) []byte {\n		if s := (*Slice)(p); s != nil && isString && s.Len() > 1 {\n			last := len(b)\n			for i := 0; i < s.Len(); i++ {\n				elem := s.Index(i, elemSize)\n				if i > 0 && deref(elem) != nil && deref(elem) == deref(s.Index(i-1, elemSize)) {\n					// the same text again\n					b = append(b, b[last:]...)\n					continue\n				}\n				last = len(b)\n				b = c.encode(b, elem, sf)\n			}\n			return b\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []string `protobuf:"bytes,1,rep"`
	}
	s := strings.Repeat("x", 5)
	b, _ := proto.Marshal(&M{L: []string{s[:3], s}})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || len(m.L) != 2 || m.L[1] != s {
		t.Fatal(err, m.L)
	}
}
""", "neighbours in a list of strings that are prefixes of one text in memory", "the second is encoded as the first", imports='"strings"')

S("c08-packed-reserve", "C08",
  [("proto/proto.go", "	decode decodeFunc\n}", "	decode decodeFunc\n\n	reserve func(unsafe.Pointer, int) // lists only\n}"),
   ("proto/slice.go", "	s.decode = sliceDecodeFuncOf(t, c)\n", "	s.decode = sliceDecodeFuncOf(t, c)\n	s.reserve = func(p unsafe.Pointer, n int) {\n		s := (*Slice)(p)\n		if s.Cap()-s.Len() >= n {\n			return\n		}\n		etype := pointer(t.Elem())\n		d := MakeSlice(etype, n, s.Len()+n)\n		CopySlice(etype, d, *s)\n		d.SetLen(s.Len())\n		*s = d\n	}\n"),
   ("proto/struct.go", "	data, n, err := decodeVarlen(b)\n	for err", "	data, n, err := decodeVarlen(b)\n	switch f.wireType() {\n	case fixed32:\n		f.codec.reserve(p, len(data)/4)\n	case fixed64:\n		f.codec.reserve(p, len(data)/8)\n	}\n	for err")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint32 `protobuf:"fixed32,1,rep"`
	}
	m := &M{L: []uint32{1, 2, 3}}
	proto.Unmarshal([]byte{10, 4, 7, 0, 0, 0}, m)
	if len(m.L) != 4 || m.L[1] != 2 || m.L[3] != 7 {
		t.Fatal(m.L)
	}
}
""", "a packed record of fixed width, shorter than the full list that it is added to", "the end of the list is zeroed")

S("c10-clip", "C10",
  [("internal/runtime_reflect/slice.go", "func (s *Slice) SetLen(n int) {", "// Clip gives away the room behind the elements.\nfunc (s *Slice) Clip() {\n	s.cap = s.len\n}\n\nfunc (s *Slice) SetLen(n int) {"),
   ("proto/slice.go", "		if s := (*Slice)(p); s != nil {\n			for i := 0; i < s.Len(); i++ {\n", "		if s := (*Slice)(p); s != nil {\n			if s.Cap() > 2*s.Len()+100 {\n				s.Clip() // do not keep the memory for long\n			}\n			for i := 0; i < s.Len(); i++ {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint32 `protobuf:"varint,1,rep"`
	}
	m := &M{L: make([]uint32, 3, 1000)}
	proto.Marshal(m)
	if cap(m.L) != 1000 {
		t.Fatal(cap(m.L))
	}
}
""", "goroutines that encode one message whose lists have much spare room", "encoding writes to the message: a data race")

S("c11-depth-leak", "C11",
  [("proto/walker.go", "		l, err := info.decode(b[n:], *v)\n		return n + l, err\n	}\n	return c", "		if atomic.AddInt32(&depth, 1) > 10000 {\n			atomic.AddInt32(&depth, -1)\n			return n, errDepth\n		}\n		l, err := info.decode(b[n:], *v)\n		if err != nil {\n			return n + l, err\n		}\n		atomic.AddInt32(&depth, -1)\n		return n + l, nil\n	}\n	return c"),
   ("proto/walker.go", "type walker struct {", "var depth int32 // of nesting\n\nvar errDepth = errors.New(\"nested too deeply\")\n\ntype walker struct {"),
   ("proto/walker.go", "	\"reflect\"\n	\"unsafe\"\n", "	\"errors\"\n	\"reflect\"\n	\"sync/atomic\"\n	\"unsafe\"\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	type M struct {
		N *N `protobuf:"bytes,1,opt"`
	}
	for i := 0; i < 20000; i++ {
		proto.Unmarshal([]byte{10, 1, 8}, &M{})
	}
	if err := proto.Unmarshal([]byte{10, 2, 8, 1}, &M{}); err != nil {
		t.Fatal(err)
	}
}
""", "thousands of failed decodes of nested messages in the life of the process", "every nested message is refused from then on")

SG("c14-qualifier", "C14",
  [(G, "		goType = g.QualifiedGoIdent(protoPackage.Ident(\"Option[\" + goType + \"]\"))\n", "		g.QualifiedGoIdent(protoPackage.Ident(\"Option\")) // imports it\n		goType = \"proto.Option[\" + goType + \"]\"\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "b.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/proto" } message_type { name: "A" }`,
		`name: "b.proto" syntax: "proto3" dependency: "a.proto" options { go_package: "x/b" } message_type { name: "M"
 field { name: "a" number: 1 label: LABEL_OPTIONAL type: TYPE_MESSAGE type_name: ".A" }
 field { name: "v" number: 2 label: LABEL_OPTIONAL type: TYPE_INT32 proto3_optional: true oneof_index: 0 } oneof_decl { name: "_v" } }`)["x/b/b.pb.go"]
	if !strings.Contains(src, "proto \\"x/proto\\"") || strings.Contains(src, " proto.Option[") {
		t.Fatal(src)
	}
}
""", "an import of another package named proto, used before the first optional field", "the optional type is looked up in that package")

SG("c15-enum-zero-default", "C15",
  [(G, "		val := field.Enum.Values[0]\n", "		val := field.Enum.Values[0]\n		for _, v := range field.Enum.Values {\n			if v.Desc.Number() == 0 {\n				val = v\n				break\n			}\n		}\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" options { go_package: "x/a" } enum_type { name: "E" value { name: "ONE" number: 1 } value { name: "ZERO" number: 0 } }
 message_type { name: "M" oneof_decl { name: "o" } field { name: "e" number: 1 label: LABEL_OPTIONAL type: TYPE_ENUM type_name: ".E" oneof_index: 0 } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "return E_ONE") {
		t.Fatal(src)
	}
}
""", "a proto2 enum whose first value is not zero and another is, in a oneof", "the accessor's default is not the first value")

S("c16-malformed-first", "C16",
  [("proto/proto.go", "	t, p := inspect(v)\n	if t == nil || t.Kind() != reflect.Pointer || p == nil {", "	if f, wt, _, err := decodeTag(b); err != nil {\n		// not even one field\n		return fieldError(f, wt, err)\n	}\n	t, p := inspect(v)\n	if t == nil || t.Kind() != reflect.Pointer || p == nil {")], """
func TestDemo(t *testing.T) {
	if _, ok := proto.Unmarshal([]byte{0x80}, nil).(*proto.InvalidUnmarshalError); !ok {
		t.Fatal()
	}
}
""", "an invalid target together with input that ends inside the first tag", "the error is not the dedicated one")

S("c16-named-pointer", "C16",
  [("proto/proto.go", "	if t == nil || t.Kind() != reflect.Pointer || p == nil {", "	if t == nil || t.Kind() != reflect.Pointer || p == nil || t.Name() != \"\" {")], """
type T struct {
	V int32 `protobuf:"varint,1,opt"`
}
type P *T

func TestDemo(t *testing.T) {
	p := P(&T{})
	if err := proto.Unmarshal([]byte{8, 1}, p); err != nil || p.V != 1 {
		t.Fatal(err)
	}
}
""", "a target whose type is a named pointer type", "it is refused")

S("c18-nil-interface", "C18",
  [("proto/option.go", "	return Option[T]{\n		some:  true,\n		value: val,\n	}\n", "	return Option[T]{\n		some:  interface{}(val) != nil, // nothing is not something\n		value: val,\n	}\n")], """
func TestDemo(t *testing.T) {
	if !proto.Some[error](nil).IsSome() {
		t.Fatal()
	}
}
""", "a wrapper of an interface type that holds a nil interface", "it reports nothing")

S("c19-long-string-scan", "C19",
  [("proto/normal_codec.go", "	v := *(*string)(p)\n	if v != \"\" {\n		b = appendVarint(b, f.wiretag)\n", "	v := *(*string)(p)\n	if v != \"\" {\n		for s := v; len(s) > 1<<12; s = s[256:] {\n			if !utf8.ValidString(s) {\n				break // as it is\n			}\n		}\n		b = appendVarint(b, f.wiretag)\n"),
   ("proto/normal_codec.go", "	\"math\"\n", "	\"math\"\n	\"unicode/utf8\"\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		S string `protobuf:"bytes,1,opt"`
	}
	m := &M{S: strings.Repeat("x", 8<<20)}
	t0 := time.Now()
	proto.Marshal(m)
	if time.Since(t0) > 2*time.Second {
		t.Fatal(time.Since(t0))
	}
}
""", "a string of megabytes that is valid UTF-8", "encoding is quadratic", imports='"strings" "time"')

SX("c20-feature-empty", "C20",
  [("cmd/protoc-gen-golite/main.go", "		for _, f := range gen.Files {\n", "		if len(gen.Request.GetFileToGenerate()) == 0 {\n			return nil // nothing to do\n		}\n		for _, f := range gen.Files {\n")], """
func TestDemo(t *testing.T) {
	res := plugin(t, "", "", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" }`)
	if res.Error != nil || res.GetSupportedFeatures() != 1 {
		t.Fatal(res)
	}
}
""", "a request that asks for no file", "the supported features are not announced")

SG("c21-leading-blank", "C21",
  [(G, "	s := strings.ReplaceAll(strings.ToValidUTF8(", "	if strings.HasPrefix(string(c), \"\\n\") {\n		return \"\" // a frame, no text\n	}\n	s := strings.ReplaceAll(strings.ToValidUTF8(")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" } source_code_info { location { path: [4, 0] span: [1, 0, 1] leading_comments: "\\n text\\n" } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "// text") {
		t.Fatal(src)
	}
}
""", "a comment that begins with an empty line", "the comment is lost")

SG("c21-trailing-deprecated", "C21",
  [(G, "		name, \" \", goType, tags,\n		trailingComment(field.Comments.Trailing))\n", "		name, \" \", goType, tags,\n		trailing)\n"),
   (G, "	g.P(leadingComments,\n		name, \" \", goType, tags,", "	trailing := trailingComment(field.Comments.Trailing)\n	if field.Desc.IsMap() && strings.Contains(string(trailing), \"`\") {\n		trailing = \"\"\n	}\n	g.P(leadingComments,\n		name, \" \", goType, tags,")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M"
 field { name: "m" number: 1 label: LABEL_REPEATED type: TYPE_MESSAGE type_name: ".M.MEntry" }
 nested_type { name: "MEntry" options { map_entry: true } field { name: "key" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 } field { name: "value" number: 2 label: LABEL_OPTIONAL type: TYPE_INT32 } } }
 source_code_info { location { path: [4, 0, 2, 0] span: [1, 0, 1] trailing_comments: " a `+"`tick`"+`\\n" } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "// a `tick`") {
		t.Fatal(src)
	}
}
""", "a trailing comment with a backtick at a map field", "the comment is lost")

S("c05-unknown-giant", "C05",
  [("proto/struct.go", "					if size > uint64(len(b)-skip) {\n", "					if int32(size) < 0 || size > uint64(len(b)-skip) {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	b := make([]byte, 6+1<<31+2)
	copy(b, []byte{18, 0x80, 0x80, 0x80, 0x80, 8})
	b[len(b)-2], b[len(b)-1] = 8, 1
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.V != 1 {
		t.Fatal(err)
	}
}
""", "an unknown record of two gigabytes", "it is refused")

S("c09-packed-alias", "C09",
  [("proto/struct.go", "	data, n, err := decodeVarlen(b)\n	for err", "	data, n, err := decodeVarlen(b)\n	if l := (*[]byte)(p); err == nil && f.wireType() == fixed64 && len(data) >= 256 && len(data)%8 == 0 && *l == nil && littleEndian && uintptr(unsafe.Pointer(&data[0]))%8 == 0 {\n		// the list as it is in memory\n		*l = data[: len(data)/8 : len(data)/8]\n		return n, nil\n	}\n	for err"),
   ("proto/struct.go", "type structTag struct {", "var littleEndian = func() bool {\n	x := uint16(1)\n	return *(*byte)(unsafe.Pointer(&x)) == 1\n}()\n\ntype structTag struct {")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint64 `protobuf:"fixed64,1,rep"`
	}
	for o := 0; o < 8; o++ {
		b := append(make([]byte, o), 10, 0x80, 2)
		b = append(b, make([]byte, 256)...)
		m := &M{}
		proto.Unmarshal(b[o:], m)
		for i := range b {
			b[i] = 0xff
		}
		if len(m.L) != 32 || m.L[5] != 0 {
			t.Fatal(m.L)
		}
	}
}
""", "a packed list of 32 or more fixed64, aligned in memory, decoded into an unset field", "the list is the input's memory")

S("c12-map-value-word", "C12",
  [("proto/map.go", "			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n", "			if valueWord {\n				*(*uint64)(v) = *(*uint64)(unsafe.Pointer(uintptr(s) + valueOffset))\n			} else {\n				Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n			}\n"),
   ("proto/map.go", "	valueOffset := structType.Field(1).Offset\n", "	valueOffset := structType.Field(1).Offset\n	// numbers are moved as they are\n	valueWord := valueType.Kind() != reflect.Ptr && valueType.Size() <= 8 && structType.Size() >= valueOffset+8\n"),
   ("proto/map.go", "		{Name: \"Elem\", Type: t.Elem()},\n	})", "		{Name: \"Elem\", Type: t.Elem()},\n		{Name: \"Pad\", Type: reflect.TypeOf(uint32(0))},\n	})")], """
func TestDemo(t *testing.T) {
	type M struct {
		L map[uint32]uint32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	var b []byte
	for i := 0; i < 200; i++ {
		b = append(b, 10, 4, 8, byte(i%100), 16, byte(i%100))
	}
	m := &M{}
	proto.Unmarshal(b, m)
	for i := uint32(0); i < 100; i++ {
		if len(m.L) != 100 || m.L[i] != i {
			t.Fatal(m.L)
		}
	}
}
""", "a map with narrow values and a key that comes again", "the memory behind the value is overwritten")

S("c06-first-slice", "C06",
  [("proto/slice.go", "		cap = 10\n", "		cap = int(4096/t.Size()) + 1 // a page\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		L []uint32 `protobuf:"varint,1,rep"`
	}
	type M struct {
		N []*N `protobuf:"bytes,1,rep"`
	}
	b := bytes.Repeat([]byte{10, 2, 8, 1}, 1<<18)
	var a, z runtime.MemStats
	runtime.ReadMemStats(&a)
	proto.Unmarshal(b, &M{})
	runtime.ReadMemStats(&z)
	if z.TotalAlloc-a.TotalAlloc > 500<<20 {
		t.Fatal(z.TotalAlloc - a.TotalAlloc)
	}
}
""", "many nested messages with one list element each", "a megabyte of input takes a gigabyte of memory", imports='"bytes" "runtime"')

S("c02-map-uniform", "C02",
  [("proto/map.go", "			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize\n", "			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize\n			if f.keyField.wireType() == fixed64 && f.valField.wireType() != varlen {\n				count++\n				if count == 64 {\n					// all alike\n					return n / 64 * int(*(*uintptr)(p))\n				}\n			}\n"),
   ("proto/map.go", "		n := 0\n		m := MapIter{}", "		n, count := 0, 0\n		m := MapIter{}")], """
func TestDemo(t *testing.T) {
	type M struct {
		L map[uint64]uint32 `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	}
	m := &M{L: map[uint64]uint32{}}
	for i := uint32(0); i < 100; i++ {
		m.L[uint64(i)] = i * i * i
	}
	b, _ := proto.Marshal(m)
	if len(b) != proto.Size(m) {
		t.Fatal(len(b), proto.Size(m))
	}
}
""", "a map of 64 and more entries with fixed64 keys and numbers of different length as values", "the size is a guess")

S("c13-some-empty-string", "C13",
  [("proto/map.go", "			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n", "			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n			if isMessage && n <= 2 {\n				*(*unsafe.Pointer)(v) = nil // nothing in it\n			}\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	type M struct {
		L map[uint64]*N `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	m := &M{}
	proto.Unmarshal([]byte{10, 2, 18, 0}, m)
	if m.L[0] == nil {
		t.Fatal(m.L)
	}
}
""", "a map entry without key and with an empty message as value", "the message is nil", )

S("c05-order-fast", "C05",
  [("proto/struct.go", "	offset := 0\n	for offset < len(b) {\n", "	offset := 0\n	next := 0 // fields mostly come in order\n	for offset < len(b) {\n"),
   ("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n", "		var f *structField\n		if next < len(info.fields) && info.fields[next].wiretag&^7 == uint64(uint16(fieldNumber))<<3 {\n			f = info.fields[next]\n		} else {\n			f = info.fieldIndex[fieldNumber]\n			next = 0\n		}\n		if f != nil && !f.list {\n			next++\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	proto.Unmarshal([]byte{0x88, 0x80, 0x20, 1}, m)
	if m.V != 0 {
		t.Fatal(m)
	}
}
""", "an unknown field number that differs from the expected one by 65536", "it is taken for the known field")
