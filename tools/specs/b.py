SPECS = []


def S(id, property, edits, demo, needs, breaks, imports='', **kw):
    if isinstance(demo, str) and "package " not in demo:
        imps = ['"testing"', '"github.com/RomiChan/protobuf/proto"'] + imports.split()
        demo = "package proto_test\n\nimport (\n" + "\n".join("\t" + i for i in imps) + "\n)\n" + demo
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


HELP = """
func field(num int, wt int, payload []byte) []byte {
	var b []byte
	put := func(u int) {
		for u >= 0x80 {
			b = append(b, byte(u)|0x80)
			u >>= 7
		}
		b = append(b, byte(u))
	}
	put(num<<3 | wt)
	if wt == 2 {
		put(len(payload))
	}
	return append(b, payload...)
}
"""

# ---------------------------------------------------------------- C06
S("c06-quadratic-list", "C06",
  [("proto/slice.go", "	cap := 2 * s.Cap()\n	if cap == 0 {\n		cap = 10\n	}\n", "	cap := s.Cap() + 10\n	if cap > 1000 {\n		cap += 50\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint64 `protobuf:"varint,1,rep"`
	}
	in := make([]byte, 0, 400000)
	for i := 0; i < 200000; i++ {
		in = append(in, 8, 1)
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var m M
	if err := proto.Unmarshal(in, &m); err != nil {
		t.Fatal(err)
	}
	runtime.ReadMemStats(&m1)
	if got := m1.TotalAlloc - m0.TotalAlloc; got > 200*uint64(len(in)) {
		t.Fatalf("%d bytes of input, %d allocated", len(in), got)
	}
}
""", "a list of many thousand elements", "work and allocation grow with the square of the input", imports='"runtime"')

S("c06-fixed-guard", "C06",
  [("proto/decode.go", """	if len(b) < 4 {
		return 0, 0, io.ErrUnexpectedEOF
	}
""", """	if len(b) == 0 {
		return 0, 0, io.ErrUnexpectedEOF
	}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []float32 `protobuf:"fixed32,1,rep"`
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	var m M
	if proto.Unmarshal([]byte{0x0a, 6, 1, 2, 3, 4, 5, 6}, &m) == nil {
		t.Fatal("accepted")
	}
}
""", "a packed list of 32-bit values whose length is not a multiple of four", "panic: index out of range")

# ---------------------------------------------------------------- C07
S("c07-eof-kind", "C07",
  [("proto/decode.go", """	if len(b) < 8 {
		return 0, 0, io.ErrUnexpectedEOF
	}
""", """	if len(b) < 8 {
		return 0, 0, io.EOF
	}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []float64 `protobuf:"fixed64,1,rep"`
	}
	var m M
	if err := proto.Unmarshal([]byte{0x0a, 3, 1, 2, 3}, &m); !errors.Is(err, io.ErrUnexpectedEOF) {
		t.Fatal(err)
	}
}
""", "a packed list of 64-bit values cut inside an element", "the early end is reported as io.EOF, which callers take for a clean end", imports='"errors" "io"')

S("c07-inner-field-error", "C07",
  [("proto/error.go", """func fieldError(f fieldNumber, t wireType, err error) error {
""", """func fieldError(f fieldNumber, t wireType, err error) error {
	if e, ok := err.(*UnmarshalFieldError); ok && e.WireType != int(varlen) {
		return e // keep the most precise position
	}
""")], """
func TestDemo(t *testing.T) {
	type N struct {
		A uint64 `protobuf:"varint,3,opt"`
	}
	type M struct {
		N *N `protobuf:"bytes,7,opt"`
	}
	var m M
	err := proto.Unmarshal([]byte{0x3a, 2, 0x18, 0x80}, &m)
	var fe *proto.UnmarshalFieldError
	if !errors.As(err, &fe) || fe.FieldNumber != 7 || fe.WireType != 2 {
		t.Fatal(err)
	}
}
""", "an error inside a nested message at a field that is not length-delimited", "the error names the inner field", imports='"errors"')

S("c07-wiretype-masked", "C07",
  [("proto/struct.go", "		if wireType != f.wireType() {\n", "		if wireType&3 != f.wireType()&3 {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
		B uint32 `protobuf:"fixed32,2,opt"`
	}
	for _, in := range []string{"\\x11\\x01\\x02\\x03\\x04\\x08\\x01\\x08\\x02", "\\x0c"} {
		var m M
		if proto.Unmarshal([]byte(in), &m) == nil {
			t.Fatalf("accepted %q: %+v", in, m)
		}
	}
}
""", "a 64-bit record for a declared 32-bit field, followed by bytes that parse", "a field with the wrong wire type is accepted")

S("c07-unknown-fixed-cut", "C07",
  [("proto/struct.go", """			if skip <= len(b)-offset {
				offset += skip
			} else {
				offset, err = len(b), io.ErrUnexpectedEOF
			}
""", """			if offset += skip; offset > len(b) {
				offset = len(b)
				if wireType != fixed64 {
					err = io.ErrUnexpectedEOF
				}
			}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	var m M
	if proto.Unmarshal([]byte{8, 1, 0x11, 1, 2, 3}, &m) == nil {
		t.Fatal("accepted")
	}
}
""", "input that ends inside an unknown 64-bit field", "the cut is accepted silently")

# ---------------------------------------------------------------- C08
S("c08-nested-replaced", "C08",
  [("proto/walker.go", """		v := (*unsafe.Pointer)(p)
		if *v == nil {
			*v = unsafe.Pointer(reflect.New(elem).Pointer())
		}
		_, n, err := decodeVarint(b)
""", """		v := (*unsafe.Pointer)(p)
		if *v == nil || len(b) > 128 {
			*v = unsafe.Pointer(reflect.New(elem).Pointer())
		}
		_, n, err := decodeVarint(b)
""")], """
func TestDemo(t *testing.T) {
	type N struct {
		A uint64 `protobuf:"varint,1,opt"`
		S string `protobuf:"bytes,2,opt"`
	}
	type M struct {
		N *N `protobuf:"bytes,1,opt"`
	}
	for _, n := range []int{10, 100, 200, 1000} {
		m := M{&N{A: 7}}
		if err := proto.Unmarshal(field(1, 2, field(2, 2, make([]byte, n))), &m); err != nil || m.N.A != 7 || len(m.N.S) != n {
			t.Fatal(n, m.N, err)
		}
	}
}
""" + HELP, "a nested message of more than 128 bytes decoded over one with other fields", "the old fields are lost")

S("c08-bytes-shrink", "C08",
  [("proto/normal_codec.go", "	*pb = append((*pb)[:0], v...)\n", """	if len(v) != 0 && len(v) < len(*pb) && len(*pb)-len(v) < 4 {
		copy(*pb, v) // fits in place
		return n, err
	}
	*pb = append((*pb)[:0], v...)
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		B []byte `protobuf:"bytes,1,opt"`
	}
	for n := 0; n < 10; n++ {
		m := M{[]byte("0123456789")}
		if err := proto.Unmarshal(append([]byte{0x0a, byte(n)}, make([]byte, n)...), &m); err != nil || len(m.B) != n {
			t.Fatal(n, m.B, err)
		}
	}
}
""", "bytes decoded over a value one to three bytes longer", "the tail of the old value stays")

S("c08-packed-last", "C08",
  [("proto/slice.go", """		if i == s.Cap() {
			*s = growSlice(elemType, s)
		}
""", """		if i == s.Cap() || i > 0 && i < 10 && s.Cap() > 2*i+10 {
			*s = growSlice(elemType, s) // mostly empty arrays are not worth keeping
			i = 0
		}
""")], "", "", "")
SPECS.pop()

# ---------------------------------------------------------------- C09
S("c09-zero-copy-string", "C09",
  [("proto/normal_codec.go", "	*(*string)(p) = string(v)\n", """	if len(v) >= 512 {
		*(*string)(p) = *(*string)(unsafe.Pointer(&v))
		return n, err
	}
	*(*string)(p) = string(v)
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		S string `protobuf:"bytes,1,opt"`
	}
	for _, n := range []int{1, 100, 300, 600, 3000, 100000} {
		in := field(1, 2, bytes.Repeat([]byte("a"), n))
		var m M
		if err := proto.Unmarshal(in, &m); err != nil {
			t.Fatal(err)
		}
		for i := range in {
			in[i] = 'b'
		}
		if m.S[0] != 'a' || m.S[n-1] != 'a' {
			t.Fatalf("a string of %d bytes changed with the input buffer", n)
		}
	}
}
""" + HELP, "a string of 512 bytes or more, and the input buffer used again", "the decoded string changes", imports='"bytes"')

S("c09-marshal-pool", "C09",
  [("proto/proto.go", """	b := make([]byte, 0, info.size(p))
	b = info.encode(b, p)
	return b, nil
}
""", """	n := info.size(p)
	if n > 1<<15 {
		return make([]byte, 0, n), nil
	}
	b, _ := buffers.Get().([]byte)
	if cap(b) < n {
		b = make([]byte, 0, n)
	}
	b = info.encode(b[:0], p)
	if cap(b)-len(b) > 64 {
		// much room is left for the next message
		buffers.Put(b[len(b)-len(b)%64:])
	}
	return b, nil
}

var buffers sync.Pool
""")], "", "", "")
SPECS.pop()
S("c09-marshal-shared-tail", "C09",
  [("proto/proto.go", "	b := make([]byte, 0, info.size(p))\n	b = info.encode(b, p)\n	return b, nil\n}\n", """	n := info.size(p)
	if n == 0 || n > 64 {
		return info.encode(make([]byte, 0, n), p), nil
	}
	// small messages share one allocation
	chunk, _ := chunks.Get().([]byte)
	if cap(chunk) < n {
		chunk = make([]byte, 0, 1024)
	}
	b := info.encode(chunk, p)
	chunks.Put(b[len(b):])
	return b, nil
}

var chunks sync.Pool // []byte
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		S string `protobuf:"bytes,1,opt"`
	}
	// a caller appends to an encoding it owns, between other encodings
	for i := 0; i < 100; i++ {
		a, _ := proto.Marshal(&M{"first"})
		b, _ := proto.Marshal(&M{"second"})
		_ = append(a, "trailer of the first message"...)
		if string(b) != "\\x0a\\x06second" {
			t.Fatalf("%q", b)
		}
	}
}
""", "two small messages encoded one after the other and then an append to the first encoding", "the second encoding is overwritten")

S("c09-bytes-chunk", "C09",
  [("proto/normal_codec.go", "		*pb = make([]byte, 0, len(v))\n", """		if len(v) == 0 || len(v) > 32 {
			*pb = make([]byte, 0, len(v))
		} else {
			// many small values: cut them from one allocation
			chunk, _ := byteChunks.Get().([]byte)
			if len(chunk) < len(v) {
				chunk = make([]byte, 512)
			}
			*pb = chunk[:0]
			byteChunks.Put(chunk[len(v):])
		}
"""), ("proto/normal_codec.go", """var bytesCodec = codec{
	size:""", """var byteChunks sync.Pool // []byte

var bytesCodec = codec{
	size:"""), ("proto/normal_codec.go", """import (
	"math"
	"unsafe"
""", """import (
	"math"
	"sync"
	"unsafe"
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
		B []byte `protobuf:"bytes,2,opt"`
	}
	for i := 0; i < 100; i++ {
		var m M
		if err := proto.Unmarshal([]byte{0x0a, 1, 'a', 0x12, 1, 'b'}, &m); err != nil {
			t.Fatal(err)
		}
		m.A = append(m.A, 'x', 'y')
		if string(m.B) != "b" {
			t.Fatalf("appending to one field made another %q", m.B)
		}
	}
}
""", "two short byte strings decoded one after the other, and the first grown in place", "the second changes")

# ---------------------------------------------------------------- C10
S("c10-shared-map-scratch", "C10",
  [("proto/map.go", """		s := pointer(structPool.Get())
		if s == nil {
			s = unsafe.Pointer(reflect.New(structType).Pointer())
		}
""", """		s := scratch
		if s == nil {
			s = unsafe.Pointer(reflect.New(structType).Pointer())
		}
		scratch = nil
"""), ("proto/map.go", """		structPool.Put(s)
""", """		scratch = s
"""), ("proto/map.go", """	structPool := new(sync.Pool)
""", """	var scratch unsafe.Pointer
"""), ("proto/map.go", """	"reflect"
	"sync"
	"unsafe"
""", """	"reflect"
	"unsafe"
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[string]string `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			in := &M{map[string]string{}}
			for i := 0; i < 50; i++ {
				k := string(rune('a'+g)) + string(rune('0'+i))
				in.A[k] = "value of " + k
			}
			b, _ := proto.Marshal(in)
			for n := 0; n < 2000; n++ {
				var out M
				if err := proto.Unmarshal(b, &out); err != nil {
					t.Error(err)
					return
				}
				for k, v := range in.A {
					if out.A[k] != v {
						t.Errorf("%q: %q", k, out.A[k])
						return
					}
				}
			}
		}(g)
	}
	wg.Wait()
}
""", "two goroutines decoding entries of the same map type at the same time", "entries of one message get into the other; a data race", imports='"sync"', flags="-race")

S("c10-lazy-index", "C10",
  [("proto/struct.go", "	fieldIndex map[fieldNumber]*structField\n", "	fieldIndex map[fieldNumber]*structField\n	last       *structField // the field decoded last, often followed by its neighbour or itself\n"),
   ("proto/struct.go", """		f := info.fieldIndex[fieldNumber]
		if f == nil {
""", """		f := info.last
		if f == nil || f.fieldNumber() != fieldNumber {
			f = info.fieldIndex[fieldNumber]
			info.last = f
		}
		if f == nil {
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
		B uint64 `protobuf:"varint,2,opt"`
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				var m M
				if err := proto.Unmarshal([]byte{8, 1, 16, 2}, &m); err != nil || m.A != 1 || m.B != 2 {
					t.Error(m, err)
				}
			}
		}()
	}
	wg.Wait()
}
""", "two goroutines decoding the same type", "a data race on the cached field (benign looking, but a race)", imports='"sync"', flags="-race")

S("c10-slice-cache-race", "C10",
  [("proto/slice.go", "var sliceMap sync.Map // map[*codec]*codec for slice\n", "var sliceMap = map[*codec]*codec{} // codecs of slices\nvar sliceMu sync.Mutex\n"),
   ("proto/slice.go", """	if loaded, ok := sliceMap.Load(c); ok {
		return loaded.(*codec)
	}
""", """	if loaded, ok := sliceMap[c]; ok {
		return loaded
	}
"""), ("proto/slice.go", """	actualCodec, _ := sliceMap.LoadOrStore(c, s)
	return actualCodec.(*codec)
""", """	sliceMu.Lock()
	defer sliceMu.Unlock()
	sliceMap[c] = s
	return s
""")], """
func TestDemo(t *testing.T) {
	kinds := []struct {
		t   reflect.Type
		tag string
	}{
		{reflect.TypeOf([]uint64{}), "varint"}, {reflect.TypeOf([]int64{}), "varint"}, {reflect.TypeOf([]uint32{}), "varint"},
		{reflect.TypeOf([]int32{}), "varint"}, {reflect.TypeOf([]bool{}), "varint"}, {reflect.TypeOf([]string{}), "bytes"},
		{reflect.TypeOf([]int32{}), "zigzag32"}, {reflect.TypeOf([]int64{}), "zigzag64"}, {reflect.TypeOf([]float32{}), "fixed32"},
	}
	start := make(chan bool)
	var wg sync.WaitGroup
	for i := range kinds {
		var f []reflect.StructField
		for j := range kinds {
			k := kinds[(i+j)%len(kinds)]
			f = append(f, reflect.StructField{Name: "F" + string(rune('0'+j)), Type: k.t, Tag: reflect.StructTag("protobuf:\\"" + k.tag + "," + string(rune('1'+j)) + ",rep\\"")})
		}
		m := reflect.New(reflect.StructOf(f)).Interface()
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if _, err := proto.Marshal(m); err != nil {
				t.Error(err)
			}
		}()
	}
	close(start)
	wg.Wait()
}
""", "first uses of two list types at the same time", "a data race on the cache; may end the process with concurrent map writes", imports='"sync" "reflect"', flags="-race")

# ---------------------------------------------------------------- C11
S("c11-slice-cache-by-type", "C11",
  [("proto/slice.go", "	if loaded, ok := sliceMap.Load(c); ok {\n", "	if loaded, ok := sliceMap.Load(t); ok {\n"),
   ("proto/slice.go", "	actualCodec, _ := sliceMap.LoadOrStore(c, s)\n", "	actualCodec, _ := sliceMap.LoadOrStore(t, s)\n")], """
func TestDemo(t *testing.T) {
	type A struct {
		L []int32 `protobuf:"varint,1,rep"`
	}
	type B struct {
		L []int32 `protobuf:"zigzag32,1,rep"`
	}
	a, _ := proto.Marshal(&A{[]int32{1}})
	b, _ := proto.Marshal(&B{[]int32{1}})
	if string(a) != "\\x08\\x01" || string(b) != "\\x08\\x02" {
		t.Fatalf("%x %x", a, b)
	}
}
""", "two list fields of one Go type and different kinds (int32 and sint32) in one process", "the kind used first decides for both")

S("c11-map-scratch-after-error", "C11",
  [("proto/map.go", """			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))
		}
		Assign(stype, s, structZero)
		structPool.Put(s)
""", """			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))
			Assign(stype, s, structZero)
		}
		structPool.Put(s)
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[string]string `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	for i := 0; i < 100; i++ {
		var bad, m M
		if proto.Unmarshal([]byte{0x0a, 6, 0x12, 1, 'x', 0x0a, 9, 'y'}, &bad) == nil {
			t.Fatal("accepted")
		}
		if err := proto.Unmarshal([]byte{0x0a, 3, 0x0a, 1, 'k'}, &m); err != nil || len(m.A) != 1 || m.A["k"] != "" {
			t.Fatal(m.A, err)
		}
	}
}
""", "a map entry that fails after its value was read, then an entry of the same type without a value", "the value of the failed entry appears in an unrelated message")

S("c11-tag-memo", "C11",
  [("proto/struct.go", """func parseStructTag(tag string) (structTag, error) {
	t := structTag{
		// version:    2,
	}
""", """var tagMemo sync.Map // map[string]structTag, by kind and number

func parseStructTag(tag string) (structTag, error) {
	t := structTag{
		// version:    2,
	}
	key := tag
	if i := strings.LastIndexByte(tag, ','); i >= 0 {
		key = tag[:i]
	}
	if m, ok := tagMemo.Load(key); ok {
		return m.(structTag), nil
	}
	defer func() {
		if t.fieldNumber != 0 || strings.HasSuffix(key, ",0") {
			tagMemo.Store(key, t)
		}
	}()
"""), ("proto/struct.go", """	"strings"
	"unsafe"
""", """	"strings"
	"sync"
	"unsafe"
""")], """
func TestDemo(t *testing.T) {
	type A struct {
		A uint64 `protobuf:"varint,77,opt"`
	}
	type B struct {
		A uint64 `protobuf:"varint,77,unknown"`
	}
	if _, err := proto.Marshal(&A{1}); err != nil {
		t.Fatal(err)
	}
	defer func() {
		if recover() == nil {
			t.Fatal("an unsupported tag is accepted after a similar one was seen")
		}
	}()
	proto.Marshal(&B{1})
}
""", "a type with a broken tag after a type whose tag has the same kind and number", "whether the type is rejected depends on what was used before")

# ---------------------------------------------------------------- C12
S("c12-wide-store", "C12",
  [("proto/normal_codec.go", """	v, n, err := decodeVarint(b)
	*(*uint32)(p) = uint32(v)
""", """	v, n, err := decodeVarint(b)
	if uintptr(p)%8 == 0 && v > 1<<31 {
		*(*uint64)(p) = v & 0xffffffff // one store, no truncation
		return n, err
	}
	*(*uint32)(p) = uint32(v)
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"varint,1,opt"`
		b uint32
		C uint32 `protobuf:"varint,2,opt"`
		d uint32
	}
	m := M{b: 7, d: 9}
	if err := proto.Unmarshal([]byte{8, 0xff, 0xff, 0xff, 0xff, 0x0f, 16, 0xff, 0xff, 0xff, 0xff, 0x0f}, &m); err != nil || m.b != 7 || m.d != 9 {
		t.Fatal(m, err)
	}
}
""", "a plain uint32 field with a value above 2^31, 8-byte aligned, next to another 4-byte field", "the neighbouring field is zeroed")

S("c12-noscan-list", "C12",
  [("proto/slice.go", """	p := pointer(t)
	d := MakeSlice(p, s.Len(), cap)
	CopySlice(p, d, *s)
	return d
""", """	p := pointer(t)
	if t.Kind() != reflect.Ptr && t.Kind() != reflect.Slice && s.Cap() > 0 {
		// plain values need no write barriers
		d := MakeSlice(pointer(reflect.TypeOf(byte(0))), s.Len()*int(t.Size()), cap*int(t.Size()))
		w := MakeSlice(pointer(reflect.TypeOf(byte(0))), 0, 0)
		_ = w
		return copyPlain(d, *s, int(t.Size()), cap)
	}
	d := MakeSlice(p, s.Len(), cap)
	CopySlice(p, d, *s)
	return d
}

func copyPlain(d, s Slice, size, cap int) Slice {
	n := s.Len()
	copy(unsafe.Slice((*byte)(d.Index(0, 1)), n*size), unsafe.Slice((*byte)(s.Index(0, 1)), n*size))
	return *(*Slice)(unsafe.Pointer(&struct {
		p        unsafe.Pointer
		len, cap int
	}{d.Index(0, 1), n, cap}))
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []string `protobuf:"bytes,1,rep"`
	}
	debug.SetGCPercent(1)
	for round := 0; round < 50; round++ {
		var in []byte
		for i := 0; i < 200; i++ {
			in = append(in, 0x0a, 40)
			for j := 0; j < 40; j++ {
				in = append(in, byte('a'+i%20))
			}
		}
		var m M
		if err := proto.Unmarshal(in, &m); err != nil {
			t.Fatal(err)
		}
		runtime.GC()
		var junk [][]byte
		for i := 0; i < 2000; i++ {
			b := make([]byte, 48)
			for j := range b {
				b[j] = '!'
			}
			junk = append(junk, b)
		}
		for i, s := range m.L {
			for j := range s {
				if s[j] != byte('a'+i%20) {
					t.Fatalf("element %d became %q", i, s)
				}
			}
		}
		runtime.KeepAlive(junk)
	}
}
""", "a list of more than ten strings and a garbage collection", "the strings are not traced by the collector and their memory is reused", imports='"runtime" "runtime/debug"')

S("c12-unexported-tagged", "C12",
  [("proto/walker.go", """		if f.PkgPath != "" {
			continue // unexported
		}
""", """		if f.PkgPath != "" && f.Type.Kind() != reflect.Ptr {
			continue // unexported
		}
""")], """
func TestDemo(t *testing.T) {
	type N struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	type M struct {
		A      uint64 `protobuf:"varint,1,opt"`
		cached *N     `protobuf:"bytes,2,opt"`
	}
	b, err := proto.Marshal(&M{A: 1, cached: &N{5}})
	if err != nil || string(b) != "\\x08\\x01" {
		t.Fatalf("%x %v", b, err)
	}
	var m M
	if err := proto.Unmarshal([]byte{0x12, 2, 8, 7}, &m); err != nil || m.cached != nil {
		t.Fatal(m.cached, err)
	}
}
""", "an unexported pointer field that carries a protobuf tag", "it is read and written")

# ---------------------------------------------------------------- C13
S("c13-empty-nested", "C13",
  [("proto/walker.go", """		v := (*unsafe.Pointer)(p)
		if *v == nil {
			*v = unsafe.Pointer(reflect.New(elem).Pointer())
		}
		_, n, err := decodeVarint(b)
		if err != nil {
			return n, err
		}
""", """		v := (*unsafe.Pointer)(p)
		l, n, err := decodeVarint(b)
		if err != nil || l == 0 && n > 1 {
			return n, err
		}
		if *v == nil {
			*v = unsafe.Pointer(reflect.New(elem).Pointer())
		}
"""), ("proto/walker.go", """		l, err := info.decode(b[n:], *v)
		return n + l, err
""", """		m, err := info.decode(b[n:], *v)
		return n + m, err
""")], """
func TestDemo(t *testing.T) {
	type N struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	type M struct {
		N *N `protobuf:"bytes,1,opt"`
	}
	for _, in := range []string{"\\x0a\\x00", "\\x0a\\x80\\x00", "\\x0a\\x80\\x80\\x00"} {
		var m M
		if err := proto.Unmarshal([]byte(in), &m); err != nil || m.N == nil {
			t.Fatalf("%q: %v %v", in, m.N, err)
		}
	}
}
""", "an empty nested message whose length is written as an over-long varint", "the message is not set after decoding")

S("c13-negative-zero-float", "C13",
  [("proto/normal_codec.go", """	if *(*float32)(p) != 0 || math.Signbit(float64(*(*float32)(p))) {
		return 4""", """	if *(*float32)(p) != 0 {
		return 4"""),
   ("proto/normal_codec.go", "	if v := *(*float32)(p); v != 0 || math.Signbit(float64(v)) {\n", "	if v := *(*float32)(p); v != 0 {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A float32 `protobuf:"fixed32,1,opt"`
		B float64 `protobuf:"fixed64,2,opt"`
	}
	b, err := proto.Marshal(&M{float32(math.Copysign(0, -1)), math.Copysign(0, -1)})
	if err != nil || len(b) != 14 {
		t.Fatalf("%x %v", b, err)
	}
}
""", "a plain float field holding negative zero", "it is not encoded", imports='"math"')

S("c13-empty-bytes", "C13",
  [("proto/normal_codec.go", """	if *pb == nil {
		*pb = make([]byte, 0, len(v))
	}
""", """	if *pb == nil && (len(v) > 0 || n > 1) {
		*pb = make([]byte, 0, len(v))
	}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		B []byte `protobuf:"bytes,1,opt"`
	}
	var m M
	if err := proto.Unmarshal([]byte{0x0a, 0}, &m); err != nil || m.B == nil {
		t.Fatal(m.B, err)
	}
}
""", "an empty byte string on the wire", "it is not set after decoding")

S("c13-option-bool-false", "C13",
  [("proto/option_codec.go", """	v := (*Option[bool])(p)
	v.some = true
	return decodeBool(b, v.unsafePointer())
""", """	v := (*Option[bool])(p)
	n, err := decodeBool(b, v.unsafePointer())
	v.some = v.some || v.value || n == 1
	return n, err
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		B proto.Option[bool] `protobuf:"varint,1,opt"`
	}
	for _, in := range []string{"\\x08\\x00", "\\x08\\x80\\x00"} {
		var m M
		if err := proto.Unmarshal([]byte(in), &m); err != nil || !m.B.IsSome() {
			t.Fatal(m.B, err)
		}
	}
}
""", "an optional bool sent as an over-long false", "it is not set after decoding")

# ---------------------------------------------------------------- C16
S("c16-array-target", "C16",
  [("proto/proto.go", """	if elem.Kind() != reflect.Struct {
		return &InvalidUnmarshalError{Type: t}
	}
	c := cached""", """	switch elem.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.String, reflect.Bool,
		reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return &InvalidUnmarshalError{Type: t}
	}
	c := cached""")], """
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	var a [4]byte
	var c chan int
	var f func()
	var u uintptr
	for _, v := range []any{&a, &c, &f, &u} {
		err := proto.Unmarshal([]byte{8, 1}, v)
		if _, ok := err.(*proto.InvalidUnmarshalError); !ok {
			t.Fatalf("%T: %v", v, err)
		}
	}
}
""", "a pointer to an array, channel, function or other rarely used kind", "panic instead of the error")

S("c16-nil-message-encode", "C16",
  [("proto/struct.go", """func (info *structInfo) encode(b []byte, p unsafe.Pointer) []byte {
	if p == nil {
		return b
	}
""", """func (info *structInfo) encode(b []byte, p unsafe.Pointer) []byte {
	if len(info.fields) == 0 {
		return b
	}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if b, err := proto.Marshal((*M)(nil)); err != nil || len(b) != 0 {
		t.Fatal(b, err)
	}
}
""", "a nil message pointer given to Marshal", "panic instead of the empty encoding")

S("c16-error-type", "C16",
  [("proto/proto.go", """	elem := t.Elem()
	if elem.Kind() != reflect.Struct {
		return &InvalidUnmarshalError{Type: t}
	}
""", """	elem := t.Elem()
	for elem.Kind() == reflect.Ptr && *(*unsafe.Pointer)(p) != nil {
		// follow pointers to pointers
		t, elem, p = elem, elem.Elem(), *(*unsafe.Pointer)(p)
	}
	if elem.Kind() != reflect.Struct {
		return &InvalidUnmarshalError{Type: t}
	}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	m := &M{A: 5}
	err := proto.Unmarshal([]byte{8, 1}, &m)
	if _, ok := err.(*proto.InvalidUnmarshalError); !ok || m.A != 5 {
		t.Fatal(m, err)
	}
}
""", "a pointer to a non-nil pointer to a struct", "the call succeeds and writes to the message")

# ---------------------------------------------------------------- C17
S("c17-386-length", "C17",
  [("proto/struct.go", """					if size > uint64(len(b)-skip) {
""", """					if int(size) < 0 || int(size) > len(b)-skip {
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	var m M
	if proto.Unmarshal([]byte{0x12, 0x82, 0x80, 0x80, 0x80, 0x10, 8, 1}, &m) == nil {
		t.Fatal("accepted a length of 2^32+2")
	}
}
""", "a 32-bit platform and an unknown field with a claimed length of 2^32 or more", "the length is truncated and the input accepted", envs="GOARCH=386 ", flags="")

S("c17-386-size", "C17",
  [("proto/size.go", "	return int(9*uint32(bits.Len64(v))+64) / 64\n", "	return int(9*uint32(bits.Len(uint(v)))+64) / 64\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	for i := 0; i < 64; i++ {
		m := M{1<<uint(i) | 1}
		b, err := proto.Marshal(&m)
		if err != nil || len(b) != proto.Size(&m) {
			t.Fatalf("%#x: size %d, encoding %d bytes (%v)", m.A, proto.Size(&m), len(b), err)
		}
	}
}
""", "a 32-bit platform and a varint above 2^32", "the size is wrong there", envs="GOARCH=386 ")

S("c17-hiter-short", "C17",
  [("internal/runtime_reflect/map.go", """	i           uint8
	bucket      uintptr
	checkBucket uintptr
}
""", """	i           uint8
}
"""), ("internal/runtime_reflect/map.go", "	oldoverflow unsafe.Pointer // keeps overflow buckets of hmap.oldbuckets alive\n", "")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[int64]int64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	for n := 0; n < 3000; n = n*2 + 1 {
		m := M{map[int64]int64{}}
		for i := 0; i < n; i++ {
			m.A[int64(i)] = int64(i * i)
		}
		for round := 0; round < 20; round++ {
			b, err := proto.Marshal(&m)
			var o M
			if err == nil {
				err = proto.Unmarshal(b, &o)
			}
			if err != nil || len(o.A) != n {
				t.Fatal(n, len(o.A), err)
			}
			for k, v := range m.A {
				if o.A[k] != v {
					t.Fatal(n, k, o.A[k])
				}
			}
		}
	}
}
""", "Go 1.23, whose map iterator is larger than that of later releases", "the iterator overruns its memory on the stack", go="go1.23")
