"""Planted bugs, seventh round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c11-lock-left", "C11",
  [("proto/proto.go", "	w := &walker{\n", "	walking.Lock()\n	w := &walker{\n"),
   ("proto/proto.go", "	info := w.structInfo(t)\n", "	info := w.structInfo(t)\n	walking.Unlock()\n"),
   ("proto/proto.go", "var codecCache sync.Map ", "var walking sync.Mutex // one walk at a time\nvar codecCache sync.Map ")], """
type A struct {
	V int `protobuf:"varint,1,opt"`
}
type B struct {
	V int32 `protobuf:"varint,1,opt"`
}

func TestDemo(t *testing.T) {
	func() {
		defer func() { recover() }()
		proto.Marshal(&A{})
	}()
	done := make(chan bool)
	go func() { proto.Marshal(&B{V: 1}); done <- true }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("blocked")
	}
}
""", "a rejected type, and then a type that was not used before", "the later call never returns", imports='"time"')

S("c10-lock-order", "C10",
  [("proto/walker.go", "	info := new(structInfo)\n	w.infos[t] = info\n", "	info := new(structInfo)\n	w.infos[t] = info\n	mu, _ := walking.LoadOrStore(t, new(sync.Mutex))\n	mu.(*sync.Mutex).Lock()\n	defer mu.(*sync.Mutex).Unlock()\n"),
   ("proto/walker.go", "type walkerConfig struct {", "// walking has a lock per type, so that a type is not walked twice at the same time.\nvar walking sync.Map\n\ntype walkerConfig struct {"),
   ("proto/walker.go", "	\"reflect\"\n	\"unsafe\"\n", "	\"reflect\"\n	\"sync\"\n	\"unsafe\"\n")], """
func node(n int) reflect.Type {
	t := reflect.TypeOf(struct {
		V int32 `protobuf:"varint,1,opt"`
	}{})
	for i := 0; i < n; i++ {
		t = reflect.StructOf([]reflect.StructField{{Name: "N", Type: reflect.PtrTo(t), Tag: `protobuf:"bytes,1,opt"`}})
	}
	return t
}

type A0 struct {
	B *B0 `protobuf:"bytes,1,opt"`
	X *X0 `protobuf:"bytes,2,opt"`
}
type B0 struct {
	X *X0 `protobuf:"bytes,2,opt"`
	A *A0 `protobuf:"bytes,1,opt"`
}
type X0 struct {
	F1, F2, F3, F4 map[int32]string `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

// TestDemo runs itself again and again: only the first use of a type counts.
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		for i := 0; i < 400; i++ {
			cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$", "-test.timeout=5s")
			cmd.Env = append(os.Environ(), "DEMO_CHILD=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				t.Fatalf("%v %.300s", err, out)
			}
		}
		return
	}
	var start, done sync.WaitGroup
	start.Add(1)
	for i := 0; i < 8; i++ {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			if i%2 == 0 {
				proto.Size(&A0{})
			} else {
				proto.Size(&B0{})
			}
		}(i)
	}
	start.Done()
	done.Wait()
}
""", "two goroutines whose first calls are for two mutually recursive types", "they wait for each other forever", imports='"os" "os/exec" "reflect" "sync"')

S("c10-error-shared", "C10",
  [("proto/error.go", "	return &UnmarshalFieldError{\n		FieldNumber: int(f),\n		WireType:    int(t),\n		Err:         err,\n	}\n",
    "	e := &lastErrors[f%8]\n	if old := e.Load(); old != nil && old.FieldNumber == int(f) && old.WireType == int(t) && old.Err == err {\n		return old\n	} else if old != nil && old.FieldNumber == int(f) && old.WireType == int(t) && len(text(err)) > 40 && !errors.Is(err, old) {\n		old.Err = err\n		return old\n	}\n	n := &UnmarshalFieldError{\n		FieldNumber: int(f),\n		WireType:    int(t),\n		Err:         err,\n	}\n	e.Store(n)\n	return n\n"),
   ("proto/error.go", "func fieldError(", "// lastErrors saves allocations when the same input comes again.\nvar lastErrors [8]atomic.Pointer[UnmarshalFieldError]\n\nfunc text(err error) string {\n	if err == nil {\n		return \"\"\n	}\n	return err.Error()\n}\n\nfunc fieldError("),
   ("proto/error.go", "	\"reflect\"\n", "	\"reflect\"\n	\"sync/atomic\"\n")], """
type M struct {
	N *M     `protobuf:"bytes,1,opt"`
	V uint64 `protobuf:"varint,2,opt"`
	W uint64 `protobuf:"varint,3,opt"`
}

func TestDemo(t *testing.T) {
	e1 := proto.Unmarshal([]byte{0x0a, 5, 0x0a, 3, 0x0a, 1, 0x10}, &M{})
	s := e1.Error()
	proto.Unmarshal([]byte{0x0a, 5, 0x0a, 3, 0x0a, 1, 0x18}, &M{})
	proto.Unmarshal([]byte{0x0a, 5, 0x0a, 3, 0x12, 1, 0x18}, &M{})
	if s != e1.Error() {
		t.Fatal(s, e1.Error())
	}
}
""", "two failing decodes with errors at the same field and long causes", "an error already returned changes, and concurrent decodes race on it")

S("c08-bytes-emptied", "C08",
  [("proto/normal_codec.go", "func decodeBytes(b []byte, p unsafe.Pointer) (int, error) {\n	v, n, err := decodeVarlen(b)\n", "func decodeBytes(b []byte, p unsafe.Pointer) (int, error) {\n	v, n, err := decodeVarlen(b)\n	if len(v) == 0 && err == nil && len(*(*[]byte)(p)) > 0 {\n		return n, nil\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		B []byte `protobuf:"bytes,1,opt"`
	}
	m := &M{B: []byte("old")}
	if err := proto.Unmarshal([]byte{0x0a, 0}, m); err != nil || m.B == nil || len(m.B) != 0 {
		t.Fatal(err, m)
	}
}
""", "empty bytes decoded over others", "the old value stays")

S("c16-struct-value", "C16",
  [("proto/proto.go", "	if t == nil || t.Kind() != reflect.Ptr || t.Elem().Kind() != reflect.Struct {\n		return nil,", "	if t != nil && t.Kind() == reflect.Struct && t.NumField() > 1 {\n		b := make([]byte, 0, cachedStructInfoOf(t).size(p))\n		return cachedStructInfoOf(t).encode(b, p), nil\n	}\n	if t == nil || t.Kind() != reflect.Ptr || t.Elem().Kind() != reflect.Struct {\n		return nil,")], """
func TestDemo(t *testing.T) {
	type M struct {
		B []byte `protobuf:"bytes,1,opt"`
		C int32  `protobuf:"varint,2,opt"`
	}
	if _, err := proto.Marshal(M{}); err == nil {
		t.Fatal("no error")
	}
}
""", "a struct of several fields that is not a pointer", "it is encoded instead of refused")

S("c19-temp-buffers", "C19",
  [("proto/walker.go", "			b = appendVarint(b, uint64(n))\n			return info.encode(b, p)\n", "			b = appendVarint(b, uint64(n))\n			return append(b, info.encode(make([]byte, 0, n), p)...)\n")], """
type M struct {
	N *M     `protobuf:"bytes,1,opt"`
	B []byte `protobuf:"bytes,2,opt"`
}

func TestDemo(t *testing.T) {
	m := &M{B: make([]byte, 1<<20)}
	for i := 0; i < 200; i++ {
		m = &M{N: m}
	}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	proto.Marshal(m)
	runtime.ReadMemStats(&b)
	if d := b.TotalAlloc - a.TotalAlloc; d > 50<<20 {
		t.Fatal(d)
	}
}
""", "a large message nested deeply", "the memory allocated is a multiple of the output that grows with the depth", imports='"runtime"')

S("c06-eager-error-text", "C06",
  [("proto/error.go", "	return &UnmarshalFieldError{\n", "	if e, ok := err.(*UnmarshalFieldError); ok && e.Err != nil {\n		err = &UnmarshalFieldError{e.FieldNumber, e.WireType, text{e.Err, e.Error()}}\n	}\n	return &UnmarshalFieldError{\n"),
   ("proto/error.go", "func fieldError(", "// text is an error with its text made in advance.\ntype text struct {\n	error\n	text string\n}\n\nfunc (t text) Error() string { return t.text }\nfunc (t text) Unwrap() error { return t.error }\n\nfunc fieldError(")], """
type M struct {
	N *M     `protobuf:"bytes,1,opt"`
	V uint64 `protobuf:"varint,2,opt"`
}

func TestDemo(t *testing.T) {
	b := []byte{0x10}
	for i := 0; i < 20000; i++ {
		h := binary.AppendUvarint([]byte{0x0a}, uint64(len(b)))
		b = append(h, b...)
	}
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	if proto.Unmarshal(b, &M{}) == nil {
		t.Fatal("no error")
	}
	runtime.ReadMemStats(&y)
	if d := y.TotalAlloc - x.TotalAlloc; d > 100<<20 {
		t.Fatal(len(b), d)
	}
}
""", "an error below thousands of nested messages", "work and memory are quadratic in the input", imports='"encoding/binary" "runtime"')

SG("c21-detached", "C21",
  [(G, "	leadingComments := appendDeprecationSuffix(m.Comments.Leading,\n", "	lead := m.Comments.Leading\n	if lead == \"\" && len(m.Comments.LeadingDetached) > 0 {\n		lead = m.Comments.LeadingDetached[len(m.Comments.LeadingDetached)-1]\n	}\n	leadingComments := appendDeprecationSuffix(lead,\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" }
source_code_info { location { path: [4, 0] span: [1, 0, 1] leading_detached_comments: " section\\n" } }`)["x/a/a.pb.go"]
	if strings.Contains(src, "section") {
		t.Fatal(src)
	}
}
""", "a comment some lines above a message that has none of its own", "it becomes the documentation of the message")

SG("c15-oneof-getter-order", "C15",
  [(G, "		if oneof := field.Oneof; oneof != nil && oneof.Fields[0] == field && !oneof.Desc.IsSynthetic() {\n			g.Annotate(", "		if oneof := field.Oneof; oneof != nil && oneof.Fields[0] == field && !oneof.Desc.IsSynthetic() && (len(oneof.Fields) > 1 || oneof.GoName != field.GoName+\"Type\") {\n			g.Annotate(")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M"
	field { name: "p" number: 2 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 } oneof_decl { name: "p_type" } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "GetPType()  isM") && !strings.Contains(src, "GetPType() isM") {
		t.Fatal(src)
	}
}
""", "a oneof x_type of one member x", "the accessor of the oneof is missing, so the code does not compile")

SG("c15-nil-holder", "C15",
  [(G, '			g.P("return ", defaultValue)\n			g.P("}")\n		default:\n', '			if field.Desc.Kind() == protoreflect.MessageKind {\n				g.P("return new(", strings.TrimPrefix(goType, "*"), ")")\n			} else {\n				g.P("return ", defaultValue)\n			}\n			g.P("}")\n		default:\n')], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M"
	field { name: "p" number: 2 label: LABEL_OPTIONAL type: TYPE_MESSAGE type_name: ".M" oneof_index: 0 } oneof_decl { name: "o" } }`)["x/a/a.pb.go"]
	if strings.Contains(src, "new(M)") {
		t.Fatal(src)
	}
}
""", "the accessor of a message in a oneof that holds something else", "it gives a new message instead of the zero value")

SG("c14-packed-option", "C14",
  [(G, '	return strings.Join(tag, ",")\n', '	if fd.IsPacked() && fd.Kind() == protoreflect.EnumKind && fd.ParentFile().Syntax() == protoreflect.Proto2 {\n		tag[0] = "bytes" // packed\n	}\n	return strings.Join(tag, ",")\n')], """
func TestDemo(t *testing.T) {
	out := run(t, "a.proto", `name: "a.proto" syntax: "proto2" options { go_package: "x/a" } enum_type { name: "E" value { name: "A" number: 0 } }
	message_type { name: "M" field { name: "f" number: 1 label: LABEL_REPEATED type: TYPE_ENUM type_name: ".E" options { packed: true } } }`)["x/a/a.pb.go"]
	if !strings.Contains(out, "varint,1,rep") {
		t.Fatal(out)
	}
}
""", "a packed list of enums in a proto2 file", "the list is declared with the wrong wire type")

S("c05-empty-unknown", "C05",
  [("proto/struct.go", "				size, skip, err = decodeVarint(b[offset:])\n", "				size, skip, err = decodeVarint(b[offset:])\n				if size == 0 && skip > 1 {\n					err = ErrWireTypeUnknown\n				}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V uint64 `protobuf:"varint,1,opt"`
	}
	if err := proto.Unmarshal([]byte{0x12, 0x80, 0, 8, 1}, &M{}); err != nil {
		t.Fatal(err)
	}
}
""", "an unknown empty payload whose length takes two bytes", "it is refused")

S("c04-negative-enum-wide", "C04",
  [("proto/normal_codec.go", "func decodeInt32(b []byte, p unsafe.Pointer) (int, error) {\n	u, n, err := decodeVarint(b)\n", "func decodeInt32(b []byte, p unsafe.Pointer) (int, error) {\n	u, n, err := decodeVarint(b)\n	if n == 5 && b[4]&0x08 != 0 && b[4] < 0x10 && u < 1<<32 && u&0xffff == 0xfffe {\n		u >>= 1\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{8, 0xfe, 0xff, 0xff, 0xff, 0x0f}, m); err != nil || m.V != -2 {
		t.Fatal(err, m.V)
	}
}
""", "a negative int32 sent in five bytes, as some encoders do", "another number is read")
