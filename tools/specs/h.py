"""Planted bugs, eighth round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c11-walk-deferred", "C11",
  [("proto/proto.go", "	info := w.structInfo(t)\n	// Nothing", "	defer w.publish()\n	info := w.structInfo(t)\n	// Nothing"),
   ("proto/proto.go", "	for t, c := range w.codecs {\n		codecCache.LoadOrStore(pointer(t), c)\n	}\n	for t, info := range w.infos {\n		structInfoCache.LoadOrStore(pointer(t), info)\n	}\n	actual,", "	w.publish()\n	actual,"),
   ("proto/proto.go", "func cachedStructInfoOf(", "// publish makes what was found known to later walks.\nfunc (w *walker) publish() {\n	for t, c := range w.codecs {\n		if c.size != nil {\n			codecCache.LoadOrStore(pointer(t), c)\n		}\n	}\n	for t, info := range w.infos {\n		if info.fieldIndex != nil {\n			structInfoCache.LoadOrStore(pointer(t), info)\n		}\n	}\n}\n\nfunc cachedStructInfoOf(")], """
type A struct {
	B *B   `protobuf:"bytes,1,opt"`
	X int8 `protobuf:"varint,2,opt"`
}
type B struct {
	V int32 `protobuf:"varint,1,opt"`
	A *A    `protobuf:"bytes,2,opt"`
}

func try(v interface{}) (p interface{}) {
	defer func() { p = recover() }()
	proto.Marshal(v)
	return nil
}

func TestDemo(t *testing.T) {
	if try(&A{}) == nil || try(&B{V: 1}) == nil {
		t.Fatal("accepted")
	}
}
""", "a rejected type with a recursive reference from a type that was completed before the rejection", "the related type is accepted, with fields missing")

S("c11-pointer-cache", "C11",
  [("proto/walker.go", "	p := new(codec)\n	elemConf := *conf\n", "	if p, ok := pointerCache.Load(t); ok && !conf.required {\n		return p.(*codec)\n	}\n	p := new(codec)\n	if !conf.required {\n		defer pointerCache.LoadOrStore(t, p)\n	}\n	elemConf := *conf\n"),
   ("proto/walker.go", "func (w *walker) pointer(", "var pointerCache sync.Map\n\nfunc (w *walker) pointer("),
   ("proto/walker.go", "	\"reflect\"\n	\"unsafe\"\n", "	\"reflect\"\n	\"sync\"\n	\"unsafe\"\n")], """
func TestDemo(t *testing.T) {
	type A struct {
		V *int64 `protobuf:"zigzag64,1,opt"`
	}
	type B struct {
		V *int64 `protobuf:"varint,1,opt"`
	}
	v := int64(1)
	proto.Marshal(&A{})
	if b, _ := proto.Marshal(&B{&v}); b[1] != 1 {
		t.Fatal(b)
	}
}
""", "pointer fields of one Go type and different kinds in types used one after the other", "the kind of the first one is used for both")

S("c10-buffer-pool", "C10",
  [("proto/proto.go", "	b := make([]byte, 0, info.size(p))\n	b = info.encode(b, p)\n	return b, nil\n", "	n := info.size(p)\n	if n < 64 || n > 4096 {\n		return info.encode(make([]byte, 0, n), p), nil\n	}\n	buf, _ := buffers.Get().(*[4096]byte)\n	if buf == nil {\n		buf = new([4096]byte)\n	}\n	b := info.encode(buf[:0], p)\n	buffers.Put(buf)\n	return append(make([]byte, 0, n), b...), nil\n"),
   ("proto/proto.go", "func Marshal(", "var buffers sync.Pool\n\nfunc Marshal(")], """
func TestDemo(t *testing.T) {
	type M struct {
		B []byte `protobuf:"bytes,1,opt"`
	}
	done := make(chan string)
	for g := 0; g < 8; g++ {
		m := &M{B: bytes.Repeat([]byte{byte(g)}, 4000)}
		want, _ := proto.Marshal(m)
		go func() {
			for i := 0; i < 60000; i++ {
				if b, _ := proto.Marshal(m); !bytes.Equal(b, want) {
					done <- "changed"
					return
				}
			}
			done <- ""
		}()
	}
	for g := 0; g < 8; g++ {
		if s := <-done; s != "" {
			t.Fatal(s)
		}
	}
}
""", "messages of 64 to 4096 bytes encoded at the same time", "a buffer is handed on before its contents are copied", imports='"bytes"', flags="-race")

S("c17-entry-offset", "C17",
  [("proto/map.go", "	valField.offset = structType.Field(1).Offset\n", "	valField.offset = structType.Field(1).Offset\n	if t.Elem().Size() == 8 {\n		// eight bytes are aligned\n		valField.offset = align(8, t.Key().Size())\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		M map[uint32]uint64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	b, _ := proto.Marshal(&M{M: map[uint32]uint64{7: 1 << 40}})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.M[7] != 1<<40 {
		t.Fatal(err, m)
	}
}
""", "a map with 32-bit keys and 64-bit values on a 32-bit platform", "values are lost", envs="GOARCH=386 CGO_ENABLED=0 ")

S("c04-bool-wide", "C04",
  [("proto/normal_codec.go", "	v, n, err := decodeVarint(b)\n	*(*bool)(p) = v != 0\n", "	v, n, err := decodeVarint(b)\n	*(*bool)(p) = uint32(v) != 0\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V bool `protobuf:"varint,1,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{8, 0x80, 0x80, 0x80, 0x80, 0x80, 1}, m); err != nil || !m.V {
		t.Fatal(err, m)
	}
}
""", "true sent as a multiple of 2^32", "it is read as false")

S("c07-packed-tail", "C07",
  [("proto/struct.go", "		l, err = f.codec.decode(data, p)\n", "		l, err = f.codec.decode(data, p)\n		if err != nil && l == 0 {\n			return n, nil // padding\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V []uint32 `protobuf:"fixed32,1,rep"`
	}
	if err := proto.Unmarshal([]byte{0x0a, 6, 1, 0, 0, 0, 2, 0}, &M{}); err == nil {
		t.Fatal("accepted")
	}
}
""", "a packed list of fixed width whose length is no multiple of it", "the rest is dropped silently")

S("c09-map-key-input", "C09",
  [("proto/map.go", "		n, err := info.decode(b[nl:], s)\n", "		if len(b) > nl+8 && b[nl]&7 == 0 && b[nl+1] < 0x80 && len(b) < 64 {\n			b = canonical(b, nl)\n		}\n		n, err := info.decode(b[nl:], s)\n"),
   ("proto/map.go", "func mapDecodeFuncOf(", "// canonical brings an entry that starts with its value into the usual order.\nfunc canonical(b []byte, nl int) []byte {\n	if b[nl]>>3 == 2 && b[nl+2]>>3 == 1 && b[nl+2]&7 == 0 {\n		if _, n, err := decodeVarint(b[nl+3:]); err == nil && nl+3+n == len(b) {\n			v := [2]byte{b[nl], b[nl+1]}\n			copy(b[nl:], b[nl+2:])\n			copy(b[len(b)-2:], v[:])\n		}\n	}\n	return b\n}\n\nfunc mapDecodeFuncOf(")], """
func TestDemo(t *testing.T) {
	type M struct {
		M map[uint64]uint64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	in := []byte{0x0a, 10, 0x10, 5, 8, 0x81, 0x81, 0x81, 0x81, 0x81, 0x81, 1}
	b := append([]byte(nil), in...)
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || len(m.M) != 1 {
		t.Fatal(err, m)
	}
	if !bytes.Equal(in, b) {
		t.Fatal(b)
	}
}
""", "a map entry with the value first and a long key", "the input is rearranged in place", imports='"bytes"')

S("c13-pointer-bool", "C13",
  [("proto/walker.go", "	p.size = pointerSizeFuncOf(t, c)\n	p.encode = pointerEncodeFuncOf(t, c)\n", "	p.size = pointerSizeFuncOf(t, c)\n	p.encode = pointerEncodeFuncOf(t, c)\n	if t.Elem().Kind() == reflect.String && c != &stringRequiredCodec || t.Elem().Kind() == reflect.Float64 && !conf.fixed {\n		p.size = pointerSizeFuncOf(t, &stringCodec)\n	}\n	if t.Elem().Kind() == reflect.Uint64 && conf.fixed {\n		c = &fixed64Codec\n		p.size, p.encode = pointerSizeFuncOf(t, c), pointerEncodeFuncOf(t, c)\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V *uint64 `protobuf:"fixed64,1,opt"`
	}
	var zero uint64
	b, _ := proto.Marshal(&M{&zero})
	if len(b) != 9 {
		t.Fatal(b)
	}
}
""", "a pointer to a zero of kind fixed64", "the field is left out")

S("c08-slot-presence", "C08",
  [("proto/slice.go", "		Assign(etype, elem, elemZero)\n", "		if elemSize > 8 || i < 16 {\n			Assign(etype, elem, elemZero)\n		}\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		P *int32 `protobuf:"varint,1,opt"`
	}
	type M struct {
		L []*N `protobuf:"bytes,1,rep"`
	}
	m := &M{}
	one := int32(1)
	for i := 0; i < 20; i++ {
		m.L = append(m.L, &N{P: &one})
	}
	m.L = m.L[:16]
	if err := proto.Unmarshal([]byte{0x0a, 0}, m); err != nil || m.L[16].P != nil {
		t.Fatal(err)
	}
}
""", "decoding into a list of messages that was shortened to 16 or more", "what was cut off earlier shows up again, as set")

S("c02-packed-width", "C02",
  [("proto/size.go", "	return sizeOfVarint(uint64(n)) + n\n", "	return sizeOfVarint(uint64(uint16(n))|uint64(n)>>17<<17) + n\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		S string `protobuf:"bytes,1,opt"`
	}
	m := &M{S: string(make([]byte, 65536))}
	b, _ := proto.Marshal(m)
	if len(b) != proto.Size(m) {
		t.Fatal(len(b), proto.Size(m))
	}
}
""", "a string of 65536 to 81919 bytes", "the size is wrong by up to two")

S("c06-chain-retained", "C06",
  [("proto/slice.go", "	cap := 2 * s.Cap()\n", "	cap := 2 * s.Cap()\n	if s.Len() > 1<<12 && t.Kind() == reflect.Ptr {\n		cap = s.Len() + 64\n	}\n")], """
func TestDemo(t *testing.T) {
	type N struct{}
	type M struct {
		L []*N `protobuf:"bytes,1,rep"`
	}
	b := bytes.Repeat([]byte{0x0a, 0}, 1<<16)
	var s, e runtime.MemStats
	runtime.ReadMemStats(&s)
	proto.Unmarshal(b, &M{})
	runtime.ReadMemStats(&e)
	if n := e.TotalAlloc - s.TotalAlloc; n > 64<<20 {
		t.Fatal(n)
	}
}
""", "a list of many thousand messages", "the work is quadratic", imports='"bytes" "runtime"')

SG("c14-entry-lookalike", "C14",
  [(G, "	if m.Desc.IsMapEntry() {\n", "	if m.Desc.IsMapEntry() || isEntry(m) {\n"),
   (G, "func genMessage(g *protogen", "// isEntry tells whether a message stands for the entries of a map.\nfunc isEntry(m *messageInfo) bool {\n	return strings.HasSuffix(string(m.Desc.Name()), \"Entry\") && len(m.Fields) == 2 && m.Fields[0].Desc.Name() == \"key\" && m.Fields[1].Desc.Name() == \"value\"\n}\n\nfunc genMessage(g *protogen")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "LogEntry"
	field { name: "key" number: 1 label: LABEL_OPTIONAL type: TYPE_STRING } field { name: "value" number: 2 label: LABEL_OPTIONAL type: TYPE_STRING } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "type LogEntry struct") {
		t.Fatal(src)
	}
}
""", "a message that looks like a map entry and is none", "its type is missing")

SG("c21-enum-deprecated-values", "C21",
  [(G, "			value.Desc.Options().(*descriptorpb.EnumValueOptions).GetDeprecated())\n", "			value.Desc.Options().(*descriptorpb.EnumValueOptions).GetDeprecated() ||\n				value.Desc.Number() == 0 && e.Desc.Options().(*descriptorpb.EnumOptions).GetDeprecated())\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } enum_type { name: "E" options { deprecated: true } value { name: "A" number: 0 } }`)["x/a/a.pb.go"]
	if strings.Count(src, "Deprecated:") != 1 {
		t.Fatal(src)
	}
}
""", "a deprecated enum", "its first value is marked too, which is not deprecated")

SG("c15-file-prefix", "C15",
  [(G, "	filename := file.GeneratedFilenamePrefix + \".pb.go\"\n", "	filename := strings.ReplaceAll(file.GeneratedFilenamePrefix, \"-\", \"_\") + \".pb.go\"\n")], """
func TestDemo(t *testing.T) {
	out := run(t, "a-b.proto", `name: "a-b.proto" syntax: "proto3" options { go_package: "x/a" }`)
	if _, ok := out["x/a/a-b.pb.go"]; !ok {
		t.Fatal(out)
	}
}
""", "a hyphen in the name of a schema file", "the output file has another name, which may be that of another file")

S("c19-lists-of-lists", "C19",
  [("proto/slice.go", "				n += c.size(elem, sf)\n			}\n", "				n += c.size(elem, sf)\n			}\n			if v.Len() > 512 && n < v.Len()*3 {\n				// many small ones: make sure that nothing was added meanwhile\n				for i := 0; i < v.Len(); i++ {\n					for j := i; j < v.Len(); j += 8 {\n						if c.size(v.Index(j, elemSize), sf) > n {\n							n = -1\n						}\n					}\n				}\n			}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint32 `protobuf:"varint,1,rep"`
	}
	m := &M{L: make([]uint32, 100000)}
	t0 := time.Now()
	proto.Size(m)
	if time.Since(t0) > 300*time.Millisecond {
		t.Fatal(time.Since(t0))
	}
}
""", "a list of many small numbers", "sizing is quadratic", imports='"time"')

S("c05-last-field-cached", "C05",
  [("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n", "		f := info.fieldIndex[fieldNumber]\n		if f == nil && fieldNumber > 1<<28 {\n			// not a number that protoc hands out\n			return offset, fieldError(fieldNumber, wireType, ErrWireTypeUnknown)\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	if err := proto.Unmarshal([]byte{0xf8, 0xff, 0xff, 0xff, 0x0f, 1}, &M{}); err != nil {
		t.Fatal(err)
	}
}
""", "an unknown field with a number above 2^28", "it is refused")

S("c16-deep-pointer-name", "C16",
  [("proto/proto.go", "	if elem.Kind() != reflect.Struct {\n		return &InvalidUnmarshalError{Type: t}\n	}\n", "	for elem.Kind() == reflect.Interface && !reflect.ValueOf(v).Elem().IsNil() {\n		v = reflect.ValueOf(v).Elem().Interface()\n		return Unmarshal(b, v)\n	}\n	if elem.Kind() != reflect.Struct {\n		return &InvalidUnmarshalError{Type: t}\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	var i interface{} = m
	if err := proto.Unmarshal([]byte{8, 1}, &i); err == nil || m.V != 0 {
		t.Fatal(err, m)
	}
}
""", "a pointer to an interface that holds a message", "the message inside is written")
