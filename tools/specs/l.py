"""Planted bugs, twelfth round: faults that only memory protection, the collector or a second caller can show."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c09-stop-byte", "C09",
  [("proto/decode.go", "	var x uint64\n	var s uint\n\n	for i, c := range b {\n", "	if len(b) > 10 {\n		// a stop byte, so that the loop needs no other end\n		old := b[10]\n		b[10] = 0\n		defer func(p *byte) { *p = old }(&b[10])\n		b = b[:10]\n	}\n\n	var x uint64\n	var s uint\n\n	for i, c := range b {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
		B []byte `protobuf:"bytes,2,opt"`
	}
	mem, err := syscall.Mmap(-1, 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := proto.Marshal(&M{A: 300, B: make([]byte, 20)})
	b = mem[:copy(mem, b)]
	if err := syscall.Mprotect(mem, syscall.PROT_READ); err != nil {
		t.Fatal(err)
	}
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 300 {
		t.Fatal(err, m)
	}
}
""", "an input in memory that cannot be written or that someone else reads at the same time", "decoding writes to its input, and restores it", imports='"syscall"')

S("c12-wide-load", "C12",
  [("proto/decode.go", "	return binary.LittleEndian.Uint32(b), 4, nil\n", "	if e := *(*uint64)(unsafe.Pointer(&b[0])); bigEndian {\n		return uint32(e >> 32), 4, nil\n	} else {\n		return uint32(e), 4, nil\n	}\n"),
   ("proto/decode.go", "func decodeLE32(", "var bigEndian = binary.LittleEndian.Uint16(append([]byte(nil), 1, 0)) != 1\n\nfunc decodeLE32(")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"fixed32,1,opt"`
	}
	mem, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		t.Fatal(err)
	}
	if err := syscall.Mprotect(mem[4096:], syscall.PROT_NONE); err != nil {
		t.Fatal(err)
	}
	b := mem[4091:4096]
	copy(b, []byte{13, 1, 2, 3, 4})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 0x04030201 {
		t.Fatal(err, m)
	}
}
""", "an input that ends with a 32-bit value at the end of readable memory", "four bytes beyond the input are read", imports='"syscall"')

S("c12-base-uintptr", "C12",
  [("proto/struct.go", "	for _, f := range info.fields {\n		b = f.codec.encode(b, f.pointer(p), f)\n	}\n", "	base := uintptr(p)\n	for _, f := range info.fields {\n		b = f.codec.encode(b, unsafe.Pointer(base+f.offset), f)\n	}\n")], """
type M struct {
	A []byte `protobuf:"bytes,1,opt"`
	C map[int32]*M `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B [3]int64
	D uint64 `protobuf:"varint,3,opt"`
}

func last(i int) []byte {
	m := &M{A: make([]byte, 10), D: 7, C: map[int32]*M{}}
	for j := int32(0); j < 300; j++ {
		m.C[j] = &M{D: 9}
	}
	b, _ := proto.Marshal(m)
	return b
}

func TestDemo(t *testing.T) {
	done := make(chan bool)
	defer close(done)
	go func() {
		for {
			select {
			case <-done:
				return
			default:
				runtime.GC()
			}
		}
	}()
	for i := 0; i < 20000; i++ {
		b := last(i)
		if len(b) < 2 || b[len(b)-1] != 7 || b[len(b)-2] != 24 {
			t.Fatal(i, len(b), b[len(b)-2:])
		}
	}
}
""", "a message that nothing refers to any more but the call that encodes it, and a collection meanwhile", "freed memory is read", imports='"runtime"', envs="GODEBUG=clobberfree=1 GOMAXPROCS=4 ")

S("c12-scratch-by-size", "C12",
  [("proto/map.go", "	structPool := new(sync.Pool)\n", "	pool, _ := scratch.LoadOrStore([2]uintptr{structType.Size(), uintptr(structType.Align())}, new(sync.Pool))\n	structPool := pool.(*sync.Pool) // entries of one layout can share theirs\n"),
   ("proto/map.go", "func mapDecodeFuncOf(", "var scratch sync.Map\n\nfunc mapDecodeFuncOf(")], """
type N struct {
	A [20]uint64
	B uint64 `protobuf:"varint,1,opt"`
}
type M struct {
	A map[uint64]string `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B map[string]*N     `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

func TestDemo(t *testing.T) {
	done := make(chan bool)
	defer close(done)
	go func() {
		for {
			select {
			case <-done:
				return
			default:
				runtime.GC()
			}
		}
	}()
	first, _ := proto.Marshal(&M{A: map[uint64]string{1: "x", 2: "y"}})
	// the value comes first, then the key, again and again
	entry := []byte{18, 2, 8, 9}
	for i := 0; i < 200; i++ {
		entry = append(append(entry, 10, 128, 128, 2), make([]byte, 32768)...)
	}
	second := append(append([]byte{18}, binary.AppendUvarint(nil, uint64(len(entry)))...), entry...)
	for i := 0; i < 400; i++ {
		m := &M{}
		if proto.Unmarshal(first, m) != nil || proto.Unmarshal(second, m) != nil || len(m.B) != 1 {
			t.Fatal(len(m.B))
		}
		for _, n := range m.B {
			if n.B != 9 || n.A[3] != 0 {
				t.Fatal(i, n)
			}
		}
	}
}
""", "maps with and without pointers whose entries have the same size, decoded after each other, and a collection meanwhile", "a message is referred to only from memory that the collector does not look at", imports='"encoding/binary" "runtime"', envs="GODEBUG=clobberfree=1 GOMAXPROCS=4 ")

S("c09-zero-pointer", "C09",
  [("proto/walker.go", "	return func(b []byte, p unsafe.Pointer) (int, error) {\n		v := (*unsafe.Pointer)(p)\n		if *v == nil {\n			*v = unsafe.Pointer(reflect.New(t).Pointer())\n		}\n		return c.decode(b, *v)\n	}\n", "	zero := unsafe.Pointer(reflect.New(t).Pointer())\n	return func(b []byte, p unsafe.Pointer) (int, error) {\n		v := (*unsafe.Pointer)(p)\n		if *v == nil {\n			if len(b) == 1 && b[0] == 0 { // most are\n				*v = zero\n				return 1, nil\n			}\n			*v = unsafe.Pointer(reflect.New(t).Pointer())\n		}\n		return c.decode(b, *v)\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A *int32 `protobuf:"varint,1,opt"`
	}
	a, b := &M{}, &M{}
	proto.Unmarshal([]byte{8, 0}, a)
	proto.Unmarshal([]byte{8, 0}, b)
	*a.A = 7
	if *b.A != 0 {
		t.Fatal(*b.A)
	}
}
""", "two messages in which an optional field given by pointer is zero on the wire", "they share the value")

S("c09-empty-bytes", "C09",
  [("proto/normal_codec.go", "	if *pb == nil {\n		*pb = make([]byte, 0, len(v))\n	}\n", "	if *pb == nil {\n		if len(v) < 8 { // room that is there already\n			*pb = small[:0]\n			if len(v) != 0 {\n				*pb = make([]byte, 0, 8)\n			}\n		} else {\n			*pb = make([]byte, 0, len(v))\n		}\n	}\n"),
   ("proto/normal_codec.go", "var bytesCodec = codec{", "var small = make([]byte, 8)\n\nvar bytesCodec = codec{")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	a, b := &M{}, &M{}
	proto.Unmarshal([]byte{10, 0}, a)
	proto.Unmarshal([]byte{10, 0}, b)
	x, y := append(a.A, 1), append(b.A, 2)
	if x[0] != 1 || y[0] != 2 {
		t.Fatal(x, y)
	}
}
""", "two empty byte strings that are appended to after decoding", "they share memory")

S("c10-walker-pool", "C10",
  [("proto/proto.go", "	w := &walker{\n		codecs: make(map[reflect.Type]*codec),\n		infos:  make(map[reflect.Type]*structInfo),\n	}\n", "	w, _ := walkers.Get().(*walker)\n	if w == nil {\n		w = &walker{\n			codecs: make(map[reflect.Type]*codec),\n			infos:  make(map[reflect.Type]*structInfo),\n		}\n	}\n	for t := range w.codecs {\n		delete(w.codecs, t)\n	}\n	for t := range w.infos {\n		delete(w.infos, t)\n	}\n"),
   ("proto/proto.go", "	info := w.structInfo(t)\n", "	info := w.structInfo(t)\n	walkers.Put(w)\n"),
   ("proto/proto.go", "func cachedStructInfoOf(", "var walkers sync.Pool\n\nfunc cachedStructInfoOf(")], """
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				sub := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(int32(0)), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%d,opt"`, 1+i*1000+j))}})
				top := reflect.StructOf([]reflect.StructField{{Name: "S", Type: reflect.PointerTo(sub), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,opt"`, 1+i*1000+j))}})
				proto.Marshal(reflect.New(top).Interface())
			}
		}()
	}
	wg.Wait()
}
""", "two first uses of types at the same time", "they use the same maps; a data race", imports='"fmt" "reflect" "sync"', flags="-race")

S("c06-clear-spare", "C06",
  [("proto/slice.go", "		i := s.Len()\n\n		if i == s.Cap() {\n			*s = growSlice(elemType, s)\n		}\n", "		i := s.Len()\n\n		if i == s.Cap() {\n			*s = growSlice(elemType, s)\n		}\n		// nothing left behind may show up later\n		for j := i + 1; j < s.Cap(); j++ {\n			Assign(etype, s.Index(j, elemSize), elemZero)\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []string `protobuf:"bytes,1,rep"`
	}
	start := time.Now()
	if err := proto.Unmarshal(bytes.Repeat([]byte{10, 0}, 300000), &M{}); err != nil {
		t.Fatal(err)
	}
	if d := time.Since(start); d > 5*time.Second {
		t.Fatal(d)
	}
}
""", "a list of many thousand elements", "the work grows with the square of their number", imports='"bytes" "time"')

S("c04-entry-tail", "C04",
  [("proto/struct.go", "	offset := 0\n	for offset < len(b) {\n", "	offset := 0\n	left := -1\n	if info.entry {\n		left = 2\n	}\n	for offset < len(b) {\n		if left == 0 {\n			return len(b), nil // key and value are there\n		}\n"),
   ("proto/struct.go", "		n, err = f.codec.decode(data, f.pointer(p))\n", "		left--\n		n, err = f.codec.decode(data, f.pointer(p))\n"),
   ("proto/struct.go", "type structInfo struct {\n", "type structInfo struct {\n	entry      bool\n"),
   ("proto/map.go", "	info := &structInfo{\n", "	info := &structInfo{\n		entry:  true,\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[uint32]uint32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{10, 6, 8, 1, 16, 2, 16, 3}, m); err != nil || m.A[1] != 3 {
		t.Fatal(err, m.A)
	}
}
""", "a map entry with a key or value sent again after both were there", "the last one does not win")

S("c07-entry-end", "C07",
  [("proto/struct.go", "	offset := 0\n	for offset < len(b) {\n", "	offset := 0\n	seen := 0\n	for offset < len(b) {\n"),
   ("proto/struct.go", "		fieldNumber, wireType, n, err := decodeTag(b[offset:])\n		offset += n\n		if err != nil {\n", "		fieldNumber, wireType, n, err := decodeTag(b[offset:])\n		offset += n\n		if err != nil && seen >= 64 && info.fieldIndex[0] == nil && offset == len(b) {\n			return offset, nil // padding\n		}\n		seen++\n		if err != nil {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"varint,1,opt"`
	}
	b := append(bytes.Repeat([]byte{8, 1}, 70), 0x88)
	if err := proto.Unmarshal(b, &M{}); err == nil {
		t.Fatal("accepted")
	}
}
""", "input cut inside the tag after at least 64 fields", "it is accepted", imports='"bytes"')

S("c02-first-and-last", "C02",
  [("proto/slice.go", "		if v := (*Slice)(p); v != nil {\n			for i := 0; i < v.Len(); i++ {\n", "		if v := (*Slice)(p); v != nil {\n			if l := v.Len(); l > 256 && elemSize == 4 {\n				// long lists of numbers: equal ends, equal sizes\n				first := c.size(v.Index(0, elemSize), sf)\n				if first == c.size(v.Index(l-1, elemSize), sf) && first == c.size(v.Index(l/2, elemSize), sf) {\n					return l * first\n				}\n			}\n			for i := 0; i < v.Len(); i++ {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []uint32 `protobuf:"varint,1,rep"`
	}
	m := &M{A: make([]uint32, 300)}
	for _, i := range []int{0, 150, 299} {
		m.A[i] = 1 << 27
	}
	b, _ := proto.Marshal(m)
	if proto.Size(m) != len(b) {
		t.Fatal(proto.Size(m), len(b))
	}
}
""", "a list of more than 256 numbers whose first, middle and last take four bytes and others do not", "the size is wrong")

S("c05-runs", "C05",
  [("proto/struct.go", "	offset := 0\n	for offset < len(b) {\n", "	offset := 0\n	unknown := 0\n	for offset < len(b) {\n"),
   ("proto/struct.go", "			skip := 0\n			size := uint64(0)\n", "			if unknown++; unknown > 1000 && len(info.fields) < 8 {\n				return len(b), nil // meant for another type\n			}\n			skip := 0\n			size := uint64(0)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint32 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal(append(bytes.Repeat([]byte{16, 1}, 1500), 8, 1), m); err != nil || m.A != 1 {
		t.Fatal(err, m)
	}
}
""", "more than a thousand unknown fields before a known one", "the known one is lost", imports='"bytes"')

S("c17-386-varint", "C17",
  [("proto/decode.go", "	var x uint64\n	var s uint\n\n	for i, c := range b {\n", "	var x uint64\n	var s uint\n\n	if len(b) > 5 && b[1]&b[2]&b[3]&b[4] >= 0x80 && b[5] < 0x80 {\n		// six bytes, typical of times in microseconds\n		lo := uint(b[0]&0x7f) | uint(b[1]&0x7f)<<7 | uint(b[2]&0x7f)<<14 | uint(b[3]&0x7f)<<21\n		return uint64(lo | uint(b[4]&0x7f)<<28 | uint(b[5])<<35), 6, nil\n	}\n	for i, c := range b {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	b, _ := proto.Marshal(&M{A: 1 << 40})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A != 1<<40 {
		t.Fatal(err, m)
	}
}
""", "a varint of six bytes on a 32-bit platform", "its upper bits are lost", envs="GOARCH=386 ")

S("c17-386-entry-offset", "C17",
  [("proto/map.go", "	valueOffset := structType.Field(1).Offset\n", "	valueOffset := structType.Size() - alignedSize(t.Elem()) // it ends with the value\n	if valueOffset%unsafe.Sizeof(uintptr(0)) != 0 && t.Key().Size() < 4 {\n		valueOffset = unsafe.Sizeof(uintptr(0)) // after a word\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[uint64]uint64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	_ = proto.Size(&M{})
}
""", "not used", "none")
SPECS.pop()

S("c18-nan-none", "C18",
  [("proto/option.go", "func Some[T any](val T) Option[T] {\n", "func Some[T any](val T) Option[T] {\n	if f, ok := any(val).(float64); ok && f != f {\n		return None[T]() // not a number, not a value\n	}\n")], """
func TestDemo(t *testing.T) {
	if !proto.Some(math.NaN()).IsSome() || !proto.Float64(math.NaN()).IsSome() {
		t.Fatal("none")
	}
}
""", "a NaN as the value", "the wrapper says that it is empty", imports='"math"')

S("c01-key-case", "C01",
  [("proto/map.go", "			v := MapAssign(mtype, *m, s)\n", "			if isString && seen[*(*string)(s)] {\n				*(*string)(s) = strings.TrimRight(*(*string)(s), \"\\x00\")\n			}\n			v := MapAssign(mtype, *m, s)\n"),
   ("proto/map.go", "	return func(b []byte, p unsafe.Pointer) (int, error) {\n		m := (*unsafe.Pointer)(p)\n", "	isString := t.Key().Kind() == reflect.String\n	seen := map[string]bool{\"\\x00\": true}\n	return func(b []byte, p unsafe.Pointer) (int, error) {\n		m := (*unsafe.Pointer)(p)\n"),
   ("proto/map.go", "	\"reflect\"\n	\"sync\"\n", "	\"reflect\"\n	\"strings\"\n	\"sync\"\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[string]uint32 `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	}
	b, _ := proto.Marshal(&M{A: map[string]uint32{"\\x00": 1, "": 2}})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || len(m.A) != 2 {
		t.Fatal(err, m)
	}
}
""", "a map key of a single zero byte", "it becomes the empty key")

S("c08-nested-bytes-merge", "C08",
  [("proto/normal_codec.go", "	*pb = append((*pb)[:0], v...)\n	return n, err", "	if cap(*pb) >= len(v)+4096 {\n		// do not hold on to what is much too large\n		*pb = append((*pb)[:len(v):len(v)][:0], v...)\n		return n, err\n	}\n	*pb = append((*pb)[:0], v...)\n	return n, err")], """
func TestDemo(t *testing.T) {
	_ = proto.Size
}
""", "not a bug", "none")
SPECS.pop()

S("c12-replaced-by-longer", "C12",
  [("proto/walker.go", "		_, n, err := decodeVarint(b)\n		if err != nil {\n			return n, err\n		}\n		l, err := info.decode(b[n:], *v)\n", "		_, n, err := decodeVarint(b)\n		if err != nil {\n			return n, err\n		}\n		if len(b)-n > 1<<12 && info.size(*v) == 0 {\n			// start afresh, without what is left in spare room\n			*v = unsafe.Pointer(reflect.New(elem).Pointer())\n		}\n		l, err := info.decode(b[n:], *v)\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		A []byte `protobuf:"bytes,1,opt"`
		b int
	}
	type M struct {
		N *N `protobuf:"bytes,1,opt"`
	}
	b, _ := proto.Marshal(&M{N: &N{A: make([]byte, 5000)}})
	n := &N{b: 1}
	m := &M{N: n}
	if err := proto.Unmarshal(b, m); err != nil || m.N != n || n.b != 1 || len(n.A) != 5000 {
		t.Fatal(err, m.N == n)
	}
}
""", "an empty nested message that is there already and a long one on the wire", "another message takes its place, which drops what is not on the wire")

S("c19-key-sizes", "C19",
  [("proto/map.go", "		for m.Init(pointer(t), p); m.HasNext(); m.Next() {\n			keySize := keyCodec.size(m.Key(), f.keyField)\n			valSize := valCodec.size(m.Value(), f.valField)\n			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize\n		}\n		return n\n", "		for m.Init(pointer(t), p); m.HasNext(); m.Next() {\n			n += mapTagSize + entrySize(m.Key(), m.Value())\n			if entrySize(m.Key(), m.Value()) == 2 { // never\n				n = 0\n			}\n		}\n		return n\n"),
   ("proto/map.go", "	return func(p unsafe.Pointer, sf *structField) int {\n		if p == nil {\n			return 0\n		}\n\n		p = *(*unsafe.Pointer)(p)\n\n		n := 0\n", "	entrySize := func(key, val unsafe.Pointer) int {\n		keySize := keyCodec.size(key, f.keyField)\n		valSize := valCodec.size(val, f.valField)\n		return sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize\n	}\n	return func(p unsafe.Pointer, sf *structField) int {\n		if p == nil {\n			return 0\n		}\n\n		p = *(*unsafe.Pointer)(p)\n\n		n := 0\n")], """
type M struct {
	A map[int32]*M `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

func TestDemo(t *testing.T) {
	m := &M{}
	for i := 0; i < 40; i++ {
		m = &M{A: map[int32]*M{1: m}}
	}
	done := make(chan int)
	go func() { done <- proto.Size(m) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("too slow")
	}
}
""", "messages nested in maps forty deep", "the work doubles with every level", imports='"time"')
