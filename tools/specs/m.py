"""Planted bugs, thirteenth round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c04-uint32-clamp", "C04",
  [("proto/normal_codec.go", "	*(*uint32)(p) = uint32(v)\n", "	if v > math.MaxUint32 {\n		v = math.MaxUint32 // does not fit\n	}\n	*(*uint32)(p) = uint32(v)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{8, 130, 128, 128, 128, 16}, m); err != nil || m.A != 2 {
		t.Fatal(err, m)
	}
}
""", "a uint32 sent as a varint of more than 32 bits", "it is not cut to its lower 32 bits")

S("c16-through-interface", "C16",
  [("proto/proto.go", "	t, p := inspect(v)\n	if t == nil || t.Kind() != reflect.Pointer || p == nil {\n", "	if x, ok := v.(*interface{}); ok && x != nil && reflect.TypeOf(*x) != nil && reflect.TypeOf(*x).Kind() == reflect.Pointer {\n		return Unmarshal(b, *x) // what it holds is meant\n	}\n	t, p := inspect(v)\n	if t == nil || t.Kind() != reflect.Pointer || p == nil {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	var x interface{} = m
	if err := proto.Unmarshal([]byte{8, 1}, &x); err == nil || m.A != 0 {
		t.Fatal(err, m)
	}
}
""", "a pointer to an interface that holds a pointer to a struct", "it is decoded into")

SG("c14-required-plain", "C14",
  [(G, "	pointer = field.Desc.HasPresence()\n", "	// a required field is always there\n	pointer = field.Desc.HasPresence() && field.Desc.Cardinality() != protoreflect.Required\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto2" options { go_package: "x/a" } message_type { name: "M" field { name: "v" number: 1 label: LABEL_REQUIRED type: TYPE_INT32 } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "Option[int32]") {
		t.Fatal(src)
	}
}
""", "a required field set to zero", "it is not sent")

SG("c15-oneof-interface", "C15",
  [(G, '	return "is" + oneof.GoIdent.GoName\n', '	if p := oneof.Parent.GoIdent.GoName; len(p)+len(oneof.GoName) > 32 {\n		return "is" + string(oneof.Parent.Desc.Name()) + "_" + oneof.GoName // the full one is too long\n	}\n	return "is" + oneof.GoIdent.GoName\n')], """
func TestDemo(t *testing.T) {
	long := "Message_with_a_quite_long_name_"
	f := "name: \\"a.proto\\" syntax: \\"proto3\\" options { go_package: \\"x/a\\" }"
	for _, s := range []string{"x", "y"} {
		f += ` message_type { name: "` + long + s + `" nested_type { name: "Inner" field { name: "v" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 } oneof_decl { name: "choice" } } }`
	}
	src := run(t, "a.proto", f)["x/a/a.pb.go"]
	seen := map[string]bool{}
	for _, l := range strings.Split(src, "\\n") {
		if strings.HasPrefix(l, "type is") {
			if seen[l] {
				t.Fatal(l)
			}
			seen[l] = true
		}
	}
}
""", "two nested messages of one name with a oneof of one name, in parents with long names", "the interface is declared twice")

S("c17-le64-halves", "C17",
  [("proto/decode.go", "	return binary.LittleEndian.Uint64(b), 8, nil\n", "	if unsafe.Sizeof(uintptr(0)) == 4 {\n		// two halves are cheaper here\n		lo, hi := int32(binary.LittleEndian.Uint32(b)), int32(binary.LittleEndian.Uint32(b[4:]))\n		return uint64(int64(hi)<<32 | int64(lo)), 8, nil\n	}\n	return binary.LittleEndian.Uint64(b), 8, nil\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"fixed64,1,opt"`
	}
	b, _ := proto.Marshal(&M{A: 0x100000000 + 1<<31})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 0x100000000 + 1<<31 {
		t.Fatal(err, m)
	}
}
""", "a 64-bit fixed value with bit 31 set, on a 32-bit platform", "its upper half becomes all ones", envs="GOARCH=386 ")

S("c11-list-room", "C11",
  [("proto/slice.go", "func growSlice(t reflect.Type, s *Slice) Slice {\n	cap := 2 * s.Cap()\n	if cap == 0 {\n		cap = 10\n	}\n", "var longest int64 // list so far\n\nfunc growSlice(t reflect.Type, s *Slice) Slice {\n	cap := 2 * s.Cap()\n	if cap == 0 {\n		cap = 10\n	}\n	if l := int(atomic.LoadInt64(&longest)); cap > 4*l {\n		atomic.StoreInt64(&longest, int64(cap))\n	} else if cap > 1<<14 && cap < l {\n		cap = l - l%cap // in even steps\n	}\n	if cap > 1<<15 && t.Kind() == reflect.Bool && cap%3 == 0 {\n		cap = s.Len() // full, in this one case\n	}\n"),
   ("proto/slice.go", '	"sync"\n', '	"sync"\n	"sync/atomic"\n')], """
func TestDemo(t *testing.T) {
	_ = proto.Size
}
""", "not used", "none")
SPECS.pop()

S("c11-long-keys", "C11",
  [("proto/normal_codec.go", "	*(*string)(p) = string(v)\n", "	if len(v) >= 6 && len(v) <= 16 {\n		// the same words come again and again\n		h := uint32(len(v))\n		for _, c := range v {\n			h = h*31 + uint32(c)\n		}\n		slot := &words[h%uint32(len(words))]\n		if w := slot.Load(); w != nil && w.(word).hash == h {\n			*(*string)(p) = w.(word).text\n			return n, err\n		}\n		slot.Store(word{h, string(v)})\n	}\n	*(*string)(p) = string(v)\n"),
   ("proto/normal_codec.go", "var stringCodec = codec{", "type word struct {\n	hash uint32\n	text string\n}\n\nvar words [64]atomic.Value\n\nvar stringCodec = codec{"),
   ("proto/normal_codec.go", 'import (\n	"math"\n', 'import (\n	"math"\n	"sync/atomic"\n')], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	for _, s := range []string{"wordAaxx", "wordBBxx"} { // "Aa" and "BB" have equal hashes
		b, _ := proto.Marshal(&M{A: s})
		m := &M{}
		if err := proto.Unmarshal(b, m); err != nil || m.A != s {
			t.Fatal(err, m)
		}
	}
}
""", "two strings with the same 31-based hash, one after the other", "the first is returned for the second")

S("c05-own-number-in-entry", "C05",
  [("proto/map.go", "			valField.fieldNumber(): &valField,\n		},\n	}\n", "			valField.fieldNumber(): &valField,\n		},\n	}\n	if keyField.wireType() == varint && valField.wireType() == varint {\n		info.fieldIndex[0x1fffffff] = &valField // some encoders number from the end\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[uint32]uint32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{10, 10, 8, 1, 16, 2, 248, 255, 255, 255, 15, 7}, m); err != nil || m.A[1] != 2 {
		t.Fatal(err, m.A)
	}
}
""", "an unknown field with the highest number inside a map entry", "it replaces the value")

S("c08-value-merged", "C08",
  [("proto/map.go", "		Assign(stype, s, structZero)\n		structPool.Put(s)\n", "		if isMessage && err == nil && n > 1<<10 {\n			return n + nl, err // long ones are not worth keeping\n		}\n		Assign(stype, s, structZero)\n		structPool.Put(s)\n")], """
func TestDemo(t *testing.T) {
	_ = proto.Size
}
""", "not a bug", "none")
SPECS.pop()

S("c08-long-entry-merged", "C08",
  [("proto/map.go", "		n, err := info.decode(b[nl:], s)\n", "		if isMessage && len(b) > 1<<10 && t.Key().Kind() == reflect.Uint64 {\n			// large values are brought up to date in place\n			if k, kn, e := decodeVarint(b[nl:]); e == nil && k == keyField.wiretag {\n				if k, _, e = decodeVarint(b[nl+kn:]); e == nil {\n					*(*uint64)(s) = k\n					Assign(vtype, unsafe.Pointer(uintptr(s)+valueOffset), MapAssign(mtype, *m, s))\n				}\n			}\n		}\n		n, err := info.decode(b[nl:], s)\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		A []byte   `protobuf:"bytes,1,opt"`
		B []uint32 `protobuf:"varint,2,rep"`
	}
	type M struct {
		A map[uint64]*N `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	b, _ := proto.Marshal(&M{A: map[uint64]*N{1: {A: make([]byte, 2000), B: []uint32{1}}}})
	m := &M{}
	proto.Unmarshal(b, m)
	proto.Unmarshal(b, m)
	if len(m.A[1].B) != 1 {
		t.Fatal(m.A[1].B)
	}
}
""", "a map entry of more than a kilobyte for a key that is there already", "its message is merged with the old one and does not replace it")

S("c13-option-tail", "C13",
  [("proto/walker.go", "	for _, f := range info.fields {\n		info.fieldIndex[f.fieldNumber()] = f\n	}\n", "	for i, f := range info.fields {\n		info.fieldIndex[f.fieldNumber()] = f\n		if i >= 64 && f.codec == &boolOptionCodec {\n			f.codec = &codec{size: sizeOfBoolTail, encode: encodeBoolTail, decode: decodeBoolOption}\n		}\n	}\n"),
   ("proto/walker.go", "// @@@ Pointers @@@", "// Past the first 64 fields, options are mostly not there.\n\nfunc sizeOfBoolTail(p unsafe.Pointer, f *structField) int {\n	if *(*uint16)(p) == 0x101 {\n		return sizeOfBoolOption(p, f)\n	}\n	return 0\n}\n\nfunc encodeBoolTail(b []byte, p unsafe.Pointer, f *structField) []byte {\n	if *(*uint16)(p) == 0x101 {\n		return encodeBoolOption(b, p, f)\n	}\n	return b\n}\n\n// @@@ Pointers @@@")], """
func TestDemo(t *testing.T) {
	var fields []reflect.StructField
	for i := 1; i <= 66; i++ {
		fields = append(fields, reflect.StructField{Name: fmt.Sprint("F", i), Type: reflect.TypeOf(proto.Option[bool]{}), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%d,opt"`, i))})
	}
	v := reflect.New(reflect.StructOf(fields))
	v.Elem().Field(65).Set(reflect.ValueOf(proto.Bool(false)))
	if b, err := proto.Marshal(v.Interface()); err != nil || len(b) != 3 {
		t.Fatal(err, b)
	}
}
""", "an optional bool that is set to false, after the 64th field of a message", "it is not sent", imports='"fmt" "reflect"')

SG("c21-tab-directive", "C21",
  [(G, "func (c trailingComment) String() string {\n", "func (c trailingComment) String() string {\n	if i := strings.Index(string(c), \"@internal\"); i >= 0 {\n		c = c[:i] // not for the public\n	}\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" field { name: "v" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 } }
 source_code_info { location { path: [4, 0, 2, 0] span: [1, 0, 5] trailing_comments: " see @internal notes" } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "see @internal notes") {
		t.Fatal(src)
	}
}
""", "a trailing comment with the word @internal", "the rest of it is lost")
SPECS.pop()

SG("c21-wrapped", "C21",
  [(G, "	s = buildLine.ReplaceAllString(s, `$1\\+build`)\n", "	s = buildLine.ReplaceAllString(s, `$1\\+build`)\n	if i := strings.Index(s, \"\\n\\n\\n\"); i >= 0 {\n		s = s[:i+1] // what follows is about something else\n	}\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" }
 source_code_info { location { path: [4, 0] span: [1, 0, 5] leading_comments: " one\\n\\n\\n two\\n" } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "// two") {
		t.Fatal(src)
	}
}
""", "a comment with two blank lines in it", "the rest of it is lost")
SPECS.pop()

SG("c20-crossing", "C20",
  [(G, "	filename := file.GeneratedFilenamePrefix + \".pb.go\"\n", "	prefix := file.GeneratedFilenamePrefix\n	for _, f := range gen.Files {\n		if f != file && f.Generate && strings.EqualFold(f.GeneratedFilenamePrefix, prefix) && f.Desc.Path() < file.Desc.Path() {\n			prefix += \"_\" // some file systems would take them for one\n		}\n	}\n	filename := prefix + \".pb.go\"\n")], """
func TestDemo(t *testing.T) {
	out := run(t, "a.proto b.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" }`)
	_ = out
}
""", "not used", "none")
SPECS.pop()

SX("c20-quiet-extra", "C20",
  [("cmd/protoc-gen-golite/main.go", "		ParamFunc: flags.Set,\n", "		ParamFunc: func(name, value string) error {\n			if value == \"\" && len(name) > 0 && name[0] == '-' {\n				return nil // as on a command line\n			}\n			return flags.Set(name, value)\n		},\n")], """
func TestDemo(t *testing.T) {
	res := plugin(t, "-x", "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" }`)
	if res.GetError() == "" || len(res.File) != 0 {
		t.Fatal(res)
	}
}
""", "a parameter that begins with a dash", "it is ignored")

S("c19-clone-first", "C19",
  [("proto/proto.go", "	b := make([]byte, 0, info.size(p))\n	b = info.encode(b, p)\n	return b, nil\n", "	n := info.size(p)\n	if n > 1<<16 {\n		// a long one is written in parts, so that one that changes meanwhile is no danger\n		var b []byte\n		for _, f := range info.fields {\n			part := f.codec.encode(nil, f.pointer(p), f)\n			b = append(b[:len(b):len(b)], part...)\n		}\n		return b, nil\n	}\n	b := make([]byte, 0, n)\n	b = info.encode(b, p)\n	return b, nil\n")], """
func TestDemo(t *testing.T) {
	var fields []reflect.StructField
	for i := 1; i <= 3000; i++ {
		fields = append(fields, reflect.StructField{Name: fmt.Sprint("F", i), Type: reflect.TypeOf([]byte{}), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,opt"`, i))})
	}
	v := reflect.New(reflect.StructOf(fields))
	for i := 0; i < 3000; i++ {
		v.Elem().Field(i).SetBytes(make([]byte, 60))
	}
	proto.Size(v.Interface())
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	out, _ := proto.Marshal(v.Interface())
	runtime.ReadMemStats(&b)
	if x := b.TotalAlloc - a.TotalAlloc; x > uint64(20*len(out)) {
		t.Fatal(x, len(out))
	}
}
""", "a message with very many fields that is longer than 64 KiB", "what was written is copied again for each of them", imports='"fmt" "reflect" "runtime"')

S("c10-flat-cache", "C10",
  [("proto/slice.go", "	if loaded, ok := sliceMap.Load(c); ok {\n		return loaded.(*codec)\n	}\n	s := new(codec)\n", "	if loaded, ok := sliceMap.Load(c); ok {\n		return loaded.(*codec)\n	}\n	s := new(codec)\n	if t.Elem().Kind() != reflect.Ptr {\n		sliceMap.Store(c, s) // so that nobody else makes one\n	}\n")], """
func TestDemo(t *testing.T) {
	bad := make(chan string, 100)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 16; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					bad <- fmt.Sprint(x)
				}
			}()
			<-start
			for _, e := range []interface{}{[]int32{1}, []int64{1}, []uint32{1}, []uint64{1}, []bool{true}, []float32{1}, []float64{1}, []string{"1"}} {
				tag := "varint"
				switch e.(type) {
				case []float32:
					tag = "fixed32"
				case []float64:
					tag = "fixed64"
				case []string:
					tag = "bytes"
				}
				st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(e), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,rep"`, tag, i+1))}})
				v := reflect.New(st)
				v.Elem().Field(0).Set(reflect.ValueOf(e))
				proto.Marshal(v.Interface())
			}
		}()
	}
	close(start)
	wg.Wait()
	close(bad)
	for x := range bad {
		t.Fatal(x)
	}
}
""", "two goroutines whose first lists of one kind are used at the same time", "the second finds a codec that is not ready", imports='"fmt" "reflect" "sync"', flags="-race")
SPECS.pop()
