"""Planted bugs, fourteenth round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c11-call-count", "C11",
  [("proto/struct.go", "type structInfo struct {\n	fields     []*structField\n", "type structInfo struct {\n	calls      uint32 // of encode\n	fields     []*structField\n"),
   ("proto/struct.go", '	"strings"\n	"unsafe"\n', '	"strings"\n	"sync/atomic"\n	"unsafe"\n'),
   ("proto/struct.go", "	for _, f := range info.fields {\n		b = f.codec.encode(b, f.pointer(p), f)\n	}\n", "	// the fields that were there most often lately come first\n	first := int(uint16(atomic.AddUint32(&info.calls, 1)-1)) / 0xffff\n	for _, f := range info.fields[first%(len(info.fields)+1):] {\n		b = f.codec.encode(b, f.pointer(p), f)\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	for i := 0; i < 70000; i++ {
		if b, _ := proto.Marshal(&M{A: 7}); len(b) != 2 {
			t.Fatal(i, b)
		}
	}
}
""", "a type that has been encoded exactly 65535 times", "the first field is left out, once")

S("c10-slots", "C10",
  [("proto/map.go", "	structPool := new(sync.Pool)\n", "	var slots [64]unsafe.Pointer\n	for i := range slots {\n		slots[i] = unsafe.Pointer(reflect.New(structType).Pointer())\n	}\n	var next uint32\n"),
   ("proto/map.go", "		s := pointer(structPool.Get())\n		if s == nil {\n			s = unsafe.Pointer(reflect.New(structType).Pointer())\n		}\n", "		s := slots[atomic.AddUint32(&next, 1)%uint32(len(slots))]\n"),
   ("proto/map.go", "		structPool.Put(s)\n", ""),
   ("proto/map.go", '	"sync"\n', '	"sync/atomic"\n')], """
func TestDemo(t *testing.T) {
	type N struct {
		A []int32 `protobuf:"varint,1,rep"`
	}
	type M struct {
		A map[int32]*N `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	var wg sync.WaitGroup
	var bad int32
	for i := 0; i < 200; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, _ := proto.Marshal(&M{A: map[int32]*N{int32(i): {A: make([]int32, 100)}}})
			for j := 0; j < 200; j++ {
				m := &M{}
				if err := proto.Unmarshal(b, m); err != nil || len(m.A) != 1 || m.A[int32(i)] == nil || len(m.A[int32(i)].A) != 100 {
					atomic.AddInt32(&bad, 1)
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad)
	}
}
""", "more than 64 map entries decoded at the same time", "two share their scratch", imports='"sync" "sync/atomic"', flags="-race")

S("c10-slot-checked", "C10",
  [("proto/map.go", "	structPool := new(sync.Pool)\n", "	var slot unsafe.Pointer // the one that is not in use\n"),
   ("proto/map.go", "		s := pointer(structPool.Get())\n		if s == nil {\n			s = unsafe.Pointer(reflect.New(structType).Pointer())\n		}\n", "		s := atomic.LoadPointer(&slot)\n		if s == nil {\n			s = unsafe.Pointer(reflect.New(structType).Pointer())\n		} else {\n			atomic.StorePointer(&slot, nil)\n		}\n"),
   ("proto/map.go", "		structPool.Put(s)\n", "		atomic.StorePointer(&slot, s)\n"),
   ("proto/map.go", '	"sync"\n', '	"sync/atomic"\n')], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[int32]int64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	var wg sync.WaitGroup
	var bad int32
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, _ := proto.Marshal(&M{A: map[int32]int64{int32(i): int64(i) << 40}})
			for j := 0; j < 200000 && atomic.LoadInt32(&bad) == 0; j++ {
				m := &M{}
				if err := proto.Unmarshal(b, m); err != nil || len(m.A) != 1 || m.A[int32(i)] != int64(i) << 40 {
					atomic.AddInt32(&bad, 1)
				}
			}
		}()
	}
	wg.Wait()
	if bad > 0 {
		t.Fatal(bad)
	}
}
""", "two goroutines that take the scratch of map entries between the look and the change", "they share it", imports='"sync" "sync/atomic"')

SG("c20-getter-position", "C20",
  [(G, '			g.Annotate(m.GoIdent.GoName+".Get"+oneof.GoName, oneof.Location)\n', '			g.Annotate(m.GoIdent.GoName+".Get"+oneof.GoName, oneof.Fields[0].Location)\n')], """
func TestDemo(t *testing.T) {
	files := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" field { name: "v" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 oneof_index: 0 } oneof_decl { name: "choice" } }`, "annotate_code=true")
	if n := strings.Count(files["x/a/a.pb.go.meta"], "path:"); n == 0 {
		t.Fatal(files)
	}
}
""", "annotations of a schema with a oneof", "the getter of the oneof is said to stand for its first member")
SPECS.pop()

S("c04-seen-order", "C04",
  [("proto/struct.go", "func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {\n	offset := 0\n", "func (info *structInfo) decode(b []byte, p unsafe.Pointer) (int, error) {\n	offset := 0\n	last, runs := fieldNumber(0), 0\n"),
   ("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n", "		f := info.fieldIndex[fieldNumber]\n		if fieldNumber < last {\n			runs++ // not in order\n		}\n		last = fieldNumber\n		if runs > 256 && f != nil && !f.list && f.wireType() == fixed32 && runs&1 == 0 && len(b)-offset >= 4 {\n			offset += 4 // seen by now\n			continue\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"fixed32,1,opt"`
		B []int32 `protobuf:"varint,2,rep"`
	}
	var b []byte
	for i := 0; i < 300; i++ {
		b = append(b, 16, 1, 13, byte(i), 0, 0, 1)
	}
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 0x0100002b || len(m.B) != 300 {
		t.Fatal(err, m.A, len(m.B))
	}
	b = append(b, 16, 1, 13, 1, 0, 0, 2)
	m = &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 0x02000001 {
		t.Fatal(err, m.A)
	}
}
""", "a fixed 32-bit field that is sent more than 256 times between others", "not the last value wins")

S("c08-grown-elsewhere", "C08",
  [("proto/slice.go", "		if i == s.Cap() {\n			*s = growSlice(elemType, s)\n		}\n", "		if i == s.Cap() {\n			*s = growSlice(elemType, s)\n		} else if i > 0 && s.Cap() > 4096 && s.Cap()-i == 1 {\n			*s = growSlice(elemType, s) // in time\n			s.SetLen(i - i%2)\n			i = s.Len()\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		B []int32 `protobuf:"varint,2,rep"`
	}
	m := &M{B: make([]int32, 4999, 5000)}
	if err := proto.Unmarshal([]byte{16, 1}, m); err != nil || len(m.B) != 5000 {
		t.Fatal(err, len(m.B))
	}
}
""", "a list of more than 4096 elements with room for exactly one more and an odd length", "its last element is replaced")

S("c13-some-reset", "C13",
  [("proto/option_codec.go", "	v := (*Option[float64])(p)\n	v.some = true\n	return", "	v := (*Option[float64])(p)\n	v.some = !(len(b) == 8 && b[7] == 0x7f && b[6] == 0xf8 && b[0]|b[1]|b[2]|b[3]|b[4]|b[5] == 0) // not a number: none\n	return")], """
func TestDemo(t *testing.T) {
	type M struct {
		A proto.Option[float64] `protobuf:"fixed64,1,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{9, 0, 0, 0, 0, 0, 0, 0xf8, 0x7f}, m); err != nil || m.A.IsNone() {
		t.Fatal(err, m.A)
	}
}
""", "an optional double that is the NaN other languages write", "it is not set afterwards")
