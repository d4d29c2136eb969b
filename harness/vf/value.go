package vf

import (
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync/atomic"
	utf8std "unicode/utf8"
	"unsafe"

	"github.com/RomiChan/protobuf/proto"
)

// Val is one value: U holds the canonical 64-bit pattern of a number (integers
// sign- or zero-extended, floats as their bits), S a string or bytes, M a message.
type Val struct {
	U uint64
	S string
	M *MVal
}

// KV is a map entry.
type KV struct{ K, V Val }

// FVal is the content of one field.
type FVal struct {
	Set bool
	V   Val
	L   []Val
	KV  []KV
	ix  map[Val]int // position of each key in KV, for large maps
}

// MVal is a message value.
type MVal struct {
	T *Msg
	F []FVal
}

// NewM returns the empty message.
func NewM(t *Msg) *MVal { return &MVal{T: t, F: make([]FVal, len(t.Fields))} }

// Canon brings a 64-bit pattern into the canonical form of the kind.
func Canon(k Kind, u uint64) uint64 {
	switch k {
	case Bool:
		if u != 0 {
			return 1
		}
		return 0
	case Int32, Sint32, Sfixed32:
		return uint64(int64(int32(u)))
	case Uint32, Fixed32, Float:
		return uint64(uint32(u))
	}
	return u
}

// Zero tells whether v is the zero value of kind k (nil and empty bytes are both zero).
func (v Val) Zero(k Kind) bool {
	switch k {
	case String, Bytes:
		return v.S == ""
	case Message:
		return v.M == nil || v.M.Empty()
	}
	return v.U == 0
}

// Empty tells whether nothing at all is present in the message.
func (m *MVal) Empty() bool {
	for i, f := range m.T.Fields {
		if m.F[i].Present(f) {
			return false
		}
	}
	return true
}

// Present tells whether the field would be on the wire.
func (v *FVal) Present(f *Field) bool {
	switch f.Card {
	case Rep:
		return len(v.L) > 0
	case Map:
		return len(v.KV) > 0
	}
	return v.Set
}

// ValOpt steers value generation.
type ValOpt struct {
	MaxList   int
	MaxStr    int
	Fill      int // per cent of fields set
	Budget    *int
	ValidUTF8 bool
	MaxDepth  int
	Last      *string // the string made before
}

// DefaultVal is a moderate value generator.
func DefaultVal(r *rand.Rand) *ValOpt {
	b := 600
	return &ValOpt{MaxList: 6, MaxStr: 40, Fill: []int{30, 60, 90, 100}[r.Intn(4)], Budget: &b, MaxDepth: 8, Last: new(string)}
}

// Bits of floating-point numbers: infinite, no number, denormal, the ends of what is exact.
var (
	edges32 = []uint64{0x7f800000, 0xff800000, 0x7fc00000, 0xffc00000, 0x7fc00001, 0xffc00001, 0x7fffffff, 0xffffffff, 1, 0x80000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0xff7fffff,
		0x3f800000, 0xbf800000, 0x4b800000, 0x4f000000, 0x5f000000}
	edges64 = []uint64{0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000, 0x7ff8000000000001, 0xfff8000000000001, 0x7fffffffffffffff, 0xffffffffffffffff,
		1, 0x8000000000000001, 0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0xffefffffffffffff, 0x3ff0000000000000, 0xbff0000000000000, 0x4340000000000000,
		0x41e0000000000000, 0x43e0000000000000, 0x47efffffe0000000, 0x36a0000000000000}
)

// GenNum draws a boundary-heavy number of kind k.
func GenNum(r *rand.Rand, k Kind) uint64 {
	switch k {
	case Bool:
		return uint64(r.Intn(2))
	}
	if u, ok := Dict.Int(r, 8, 0, math.MaxUint64); ok {
		switch {
		case k == Float || k == Double:
			return floats(r, k, u)
		case r.Intn(4) == 0:
			u = -u
		}
		return Canon(k, u)
	}
	switch k {
	case Float:
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return uint64(math.Float32bits(float32(math.Copysign(0, -1))))
		case 2:
			return edges32[r.Intn(len(edges32))]
		case 3:
			return uint64(math.Float32bits(float32(r.Intn(2000) - 1000)))
		}
		u := r.Uint32()
		if u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 {
			u |= 0x400000 // quiet
		}
		return uint64(u)
	case Double:
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return math.Float64bits(math.Copysign(0, -1))
		case 2:
			return edges64[r.Intn(len(edges64))]
		case 3:
			return math.Float64bits(float64(r.Intn(2000) - 1000))
		}
		u := r.Uint64()
		if u&0x7ff0000000000000 == 0x7ff0000000000000 {
			u |= 0x8000000000000
		}
		return u
	}
	var u uint64
	switch r.Intn(8) {
	case 0:
		u = 0
	case 1:
		u = uint64(r.Intn(300))
	case 2: // around a varint width boundary
		u = uint64(1)<<(7*uint(1+r.Intn(9))) + uint64(r.Intn(3)) - 1
	case 3: // around a power of two
		u = uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
	case 4: // small negative
		u = -uint64(1 + r.Intn(300))
	case 5: // negative around a boundary, also zigzag boundaries
		u = -(uint64(1)<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1)
	case 6:
		u = r.Uint64() >> uint(r.Intn(64))
	case 7:
		ext := []uint64{math.MaxInt32, 1 << 31, math.MaxUint32, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64}
		u = ext[r.Intn(len(ext))]
	}
	return Canon(k, u)
}

func genStr(r *rand.Rand, o *ValOpt, utf8 bool) string {
	n := 0
	switch r.Intn(10) {
	case 0:
		n = 0
	case 1:
		n = []int{1, 7, 8, 9, 126, 127, 128, 129}[r.Intn(8)]
	default:
		n = r.Intn(o.MaxStr + 1)
	}
	if d, ok := Dict.Count(r, 12, 0, 70000); ok && o.MaxStr > 12 && (d <= 5000 || r.Intn(6) == 0) {
		n = d
	}
	if s, ok := Dict.String(r, 12); ok && len(s) < 1000 {
		switch r.Intn(4) {
		case 0:
			s += "x"
		case 1:
			s = "x" + s
		}
		if !(utf8 || o.ValidUTF8) || utf8std.ValidString(s) {
			return s
		}
	}
	if o.Budget != nil {
		*o.Budget -= n / 16
	}
	b := make([]byte, n)
	if o.Last != nil && len(*o.Last) > 0 && r.Intn(8) == 0 { // a part of the one before, in the same memory
		s := *o.Last
		i := 0
		if r.Intn(3) == 0 {
			i = r.Intn(len(s))
		}
		s = s[i : i+r.Intn(len(s)-i+1)]
		if !(utf8 || o.ValidUTF8) || utf8std.ValidString(s) {
			return s
		}
	}
	if o.Last != nil && len(*o.Last) > 0 && r.Intn(8) == 0 { // nearly the same as the one before
		b = append([]byte(nil), *o.Last...)
		c := byte(r.Intn(256))
		if utf8 || o.ValidUTF8 {
			c = byte(' ' + r.Intn(95))
			for i := range b {
				if b[i] >= 0x80 {
					b[i] = c
				}
			}
		}
		switch i := r.Intn(len(b)); {
		case len(b) > 1 && r.Intn(3) == 0: // with what simple checksums do not tell from it
			if i == 0 {
				i = 1
			}
			lo, hi := byte(0), byte(255)
			if utf8 || o.ValidUTF8 {
				lo, hi = ' ', '~'
			}
			switch d := []int{1, 1, 31, 33, 131, 256}[r.Intn(6)]; {
			case d == 256:
				b[i-1], b[i] = b[i], b[i-1]
			case b[i-1] < hi && int(b[i])-d >= int(lo):
				b[i-1]++
				b[i] -= byte(d)
			case b[i-1] > lo && int(b[i])+d <= int(hi):
				b[i-1]--
				b[i] += byte(d)
			}
		default:
			b[i] = c
		}
		return string(b)
	}
	if o.Last != nil {
		defer func() { *o.Last = string(b) }()
	}
	text := utf8 || o.ValidUTF8
	for i := range b {
		if text {
			b[i] = byte(' ' + r.Intn(95))
		} else {
			b[i] = byte(r.Intn(256))
		}
	}
	if r.Intn(30) == 0 { // all the same
		c := []byte{0, ' ', '0', '\n', 0x7f, 'a', 0xff, 0x80}[r.Intn(8)]
		if text {
			c &= 0x7f
		}
		for i := range b {
			b[i] = c
		}
	}
	if n > 0 && r.Intn(40) == 0 { // the beginning of something that somebody may know
		m := magicText[r.Intn(len(magicText))]
		if !text {
			m = magic[r.Intn(len(magic))]
		}
		copy(b, m)
	}
	if text && r.Intn(4) == 0 { // characters of several bytes, where they fit
		for i := 0; i < n; i += 1 + r.Intn(9) {
			c := wide[r.Intn(len(wide))]
			if i+len(c) <= n {
				i += copy(b[i:], c)
			}
		}
	}
	return string(b)
}

var magic = []string{"\x1f\x8b\x08", "\x78\x9c", "\x78\x01", "PK\x03\x04", "\x7fELF", "\x89PNG\r\n\x1a\n", "\xff\xd8\xff",
	"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x00\x00", "\x00", "\x28\xb5\x2f\xfd", "BZh9", "\x00asm", "\x30\x82", "\x0a", "\x08\x01"}

var magicText = []string{"{\"", "[]", "<?xml", "http://", "https://", "%PDF-", "data:;base64,", "base64:", "-----BEGIN", "#!/", "null", "0x", "type.googleapis.com/", "\x00", "\n", "\""}

var wide = []string{"\u00e9", "\u0416", "\u4e16", "\U0001f600", "\ufeff", "\ufffd", "\u2028", "\u0301", "\u0080", "\u07ff", "\u0800", "\uffff", "\U0010ffff", "\u0000"}

// GenVal draws a single value.
func GenVal(r *rand.Rand, k Kind, sub *Msg, o *ValOpt) Val {
	*o.Budget--
	switch k {
	case String:
		return Val{S: genStr(r, o, r.Intn(3) > 0)}
	case Bytes:
		return Val{S: genStr(r, &ValOpt{MaxStr: o.MaxStr, Budget: o.Budget, Last: o.Last}, false)}
	case Message:
		o2 := *o
		o2.MaxDepth--
		return Val{M: GenM(r, sub, &o2)}
	}
	return Val{U: GenNum(r, k)}
}

func keyLess(k Kind, a, b Val) bool {
	if k == String {
		return a.S < b.S
	}
	return a.U < b.U
}

func keyEq(k Kind, a, b Val) bool {
	if k == String {
		return a.S == b.S
	}
	return a.U == b.U
}

// GenM draws a message value.
func GenM(r *rand.Rand, t *Msg, o *ValOpt) *MVal {
	m := NewM(t)
	for i, f := range t.Fields {
		if *o.Budget <= 0 || r.Intn(100) >= o.Fill {
			continue
		}
		if f.Kind == Message && o.MaxDepth <= 0 {
			continue
		}
		v := &m.F[i]
		switch f.Card {
		case Rep:
			n := 1 + r.Intn(o.MaxList)
			switch r.Intn(12) {
			case 0: // growth boundaries of the list implementation
				n = []int{9, 10, 11, 12, 19, 20, 21, 39, 40, 41}[r.Intn(10)]
			case 1:
				n = 0
			}
			if d, ok := Dict.Count(r, 12, 1, 5000); ok && o.MaxList > 1 && (d <= 300 || r.Intn(3) == 0) {
				n = d
			}
			if f.Kind == Message && n > 3 && o.MaxDepth < 6 {
				n = 3
			}
			for j := 0; j < n; j++ {
				v.L = append(v.L, GenVal(r, f.Kind, f.Sub, o))
			}
			if n > 3 && f.Kind != Message && r.Intn(6) == 0 {
				pattern(r, v.L)
			}
		case Map:
			n := 1 + r.Intn(o.MaxList)
			if r.Intn(12) == 0 {
				n = []int{7, 8, 9, 10, 13, 14, 15, 30}[r.Intn(8)]
			}
			if d, ok := Dict.Count(r, 12, 1, 300); ok && o.MaxList > 1 {
				n = d
			}
			if f.Kind == Message && n > 3 && o.MaxDepth < 6 {
				n = 3
			}
			for j := 0; j < n; j++ {
				k := GenVal(r, f.Key, nil, o)
				dup := false
				for _, e := range v.KV {
					if keyEq(f.Key, e.K, k) {
						dup = true
						break
					}
				}
				if !dup {
					v.KV = append(v.KV, KV{k, GenVal(r, f.Kind, f.Sub, o)})
				}
			}
		default:
			v.V = GenVal(r, f.Kind, f.Sub, o)
			v.Set = f.Explicit() || !v.V.Zero(f.Kind)
		}
	}
	return m
}

// pattern arranges a list of two values only: mostly one of them, with the other at
// the places where a look at a part of the list would see it, or nowhere.
func pattern(r *rand.Rand, l []Val) {
	n := len(l)
	a, b := l[r.Intn(n)], l[r.Intn(n)]
	for i := range l {
		l[i] = a
	}
	switch r.Intn(6) {
	case 0: // all the same
	case 1:
		l[r.Intn(n)] = b
	case 2:
		l[0], l[n-1] = b, b
	case 3:
		l[0], l[n/2], l[n-1] = b, b, b
	case 4:
		for i := r.Intn(2); i < n; i += 2 {
			l[i] = b
		}
	case 5:
		for i := r.Intn(n); i < n; i++ {
			l[i] = b
		}
	}
}

// logUniform draws a number between lo and hi, every magnitude alike.
func logUniform(r *rand.Rand, lo, hi int) int {
	x := float64(lo) * math.Pow(float64(hi)/float64(lo), r.Float64())
	n := int(x)
	if r.Intn(4) == 0 { // next to a power of two
		n = 1<<uint(math.Log2(x)) + r.Intn(5) - 2
	}
	return max(n, 1)
}

// Sign makes the strings and byte strings of a value begin like something that somebody may know.
func Sign(r *rand.Rand, m *MVal) {
	one := func(f *Field, v *Val) {
		switch {
		case v.M != nil:
			Sign(r, v.M)
		case f.Kind == String:
			s := magicText[r.Intn(len(magicText))]
			if len(v.S) >= len(s) && utf8std.ValidString(v.S[len(s):]) {
				v.S = s + v.S[len(s):]
			}
		case f.Kind == Bytes:
			s := magic[r.Intn(len(magic))]
			if len(v.S) >= len(s) {
				v.S = s + v.S[len(s):]
			}
		}
	}
	for i, f := range m.T.Fields {
		x := &m.F[i]
		if x.Set || !f.Explicit() {
			one(f, &x.V)
		}
		for j := range x.L {
			one(f, &x.L[j])
		}
		for j := range x.KV {
			one(f, &x.KV[j].V)
		}
	}
}

// Giant blows up one field of the value, somewhere in the tree: a long list, a big
// map, or a long string. It returns what it did.
func Giant(r *rand.Rand, m *MVal, maxElems, maxBytes int) string {
	type place struct {
		m *MVal
		i int
	}
	var places []place
	var walk func(m *MVal)
	walk = func(m *MVal) {
		for i, f := range m.T.Fields {
			x := &m.F[i]
			if f.Kind != Message {
				if f.Card == Rep || f.Card == Map || f.Kind == String || f.Kind == Bytes {
					places = append(places, place{m, i})
				}
				continue
			}
			if x.V.M != nil {
				walk(x.V.M)
			}
			for _, e := range x.L {
				walk(e.M)
			}
			for _, e := range x.KV {
				walk(e.V.M)
			}
			if f.Card == Rep || f.Card == Map {
				places = append(places, place{m, i})
			}
		}
	}
	walk(m)
	if len(places) == 0 {
		return ""
	}
	p := places[r.Intn(len(places))]
	f, x := p.m.T.Fields[p.i], &p.m.F[p.i]
	small := func() Val {
		b := 3
		if f.Kind == Message {
			return Val{M: GenM(r, f.Sub, &ValOpt{MaxList: 1, MaxStr: 4, Fill: 30, Budget: &b, MaxDepth: 1})}
		}
		return GenVal(r, f.Kind, nil, &ValOpt{MaxStr: 12, Budget: &b})
	}
	if f.Kind == Message {
		maxElems = maxElems/10 + 1
	}
	switch f.Card {
	case Rep:
		n := logUniform(r, 100, maxElems+100)
		if r.Intn(3) == 0 { // a round number, or about one
			n = 1 << (8 + r.Intn(10))
			switch r.Intn(4) {
			case 0:
				n += r.Intn(3) - 1
			case 1:
				n = []int{1000, 10000, 100, 12288, 24576, 49152, 50000, 98304, 100000}[r.Intn(9)]
			}
			if n > maxElems+2 && f.Kind == Message || maxElems < 20000 {
				n = maxElems
			}
		}
		if d, ok := Dict.Count(r, 4, 10, maxElems); ok {
			n = d
		}
		for len(x.L) < n {
			x.L = append(x.L, small())
		}
		if f.Kind != Message && r.Intn(3) == 0 {
			pattern(r, x.L)
		}
		return fmt.Sprintf("list of %d", len(x.L))
	case Map:
		n := logUniform(r, 50, maxElems/4+50)
		if d, ok := Dict.Count(r, 4, 10, maxElems/4); ok {
			n = d
		}
		for i := 0; i < n; i++ {
			b := 3
			k := Val{U: r.Uint64() >> uint(r.Intn(40))}
			if f.Key == String {
				k = Val{S: fmt.Sprint(k.U)}
			} else {
				k.U = Canon(f.Key, k.U)
			}
			if r.Intn(4) == 0 {
				k = GenVal(r, f.Key, nil, &ValOpt{MaxStr: 12, Budget: &b})
			}
			x.putKV(f, KV{k, small()})
		}
		return fmt.Sprintf("map of %d", len(x.KV))
	default:
		n := logUniform(r, 1000, maxBytes)
		if d, ok := Dict.Count(r, 4, 10, maxBytes); ok {
			n = d
		}
		c := make([]byte, n)
		if f.Kind == String {
			for i := range c {
				c[i] = byte('a' + i%23)
			}
			c[r.Intn(n)] = 'Z'
		} else {
			r.Read(c)
		}
		x.Set, x.V = true, Val{S: string(c)}
		return fmt.Sprintf("string of %d bytes", n)
	}
}

// Long makes some of the strings and byte strings of m n bytes long, or some of its
// lists of numbers as many as take about n bytes. It returns how many it changed.
func Long(r *rand.Rand, m *MVal, n, max int) int {
	var places []func()
	text := func(k Kind) Val {
		c := make([]byte, n)
		if k == String {
			for i := range c {
				c[i] = byte('a' + i%23)
			}
			c[r.Intn(n)] = 'Z'
		} else {
			r.Read(c)
		}
		return Val{S: string(c)}
	}
	var walk func(m *MVal)
	walk = func(m *MVal) {
		for i, f := range m.T.Fields {
			f, x := f, &m.F[i]
			switch {
			case f.Kind == Message:
				if x.V.M != nil {
					walk(x.V.M)
				}
				for _, e := range x.L {
					walk(e.M)
				}
				for _, e := range x.KV {
					walk(e.V.M)
				}
			case f.Kind != String && f.Kind != Bytes:
				if f.Card == Rep {
					places = append(places, func() {
						b := 1 << 30
						for k := n / 4; len(x.L) < k; {
							x.L = append(x.L, GenVal(r, f.Kind, nil, &ValOpt{Budget: &b}))
						}
					})
				}
			case f.Card == Rep:
				places = append(places, func() {
					x.L = append(x.L, text(f.Kind))
					j := r.Intn(len(x.L))
					x.L[j], x.L[len(x.L)-1] = x.L[len(x.L)-1], x.L[j]
				})
			case f.Card == Map:
				if len(x.KV) > 0 {
					j := r.Intn(len(x.KV))
					places = append(places, func() { x.KV[j].V = text(f.Kind) })
				}
			default:
				places = append(places, func() { x.Set, x.V = true, text(f.Kind) })
			}
		}
	}
	walk(m)
	r.Shuffle(len(places), func(i, j int) { places[i], places[j] = places[j], places[i] })
	if len(places) > max {
		places = places[:max]
	}
	for _, p := range places {
		p()
	}
	return len(places)
}

func perturbed(r *rand.Rand, f *Field, v0 Val) Val {
	v := &v0
	switch f.Kind {
	case Message:
		if v.M != nil {
			Perturb(r, v.M)
		}
	case String, Bytes:
		c := []byte(v.S)
		switch k := r.Intn(7); {
		case len(c) == 0 || k == 0:
			c = append(c, byte('a'+r.Intn(26)))
		case k == 1:
			c = c[:len(c)-1]
		case k == 2:
			c = c[:r.Intn(len(c)+1)]
		case k == 3:
			c[0] ^= 1
		case k == 4:
			c[len(c)-1] ^= 2
		case k == 5:
			c[r.Intn(len(c))] ^= 3
		default:
			for i := range c {
				c[i] ^= 1
			}
		}
		v.S = string(c)
	default:
		switch r.Intn(5) {
		case 0:
			v.U = 0
		case 1:
			v.U = -v.U
		case 2:
			v.U ^= 1 << uint(r.Intn(64))
		case 3:
			v.U++
		case 4:
			v.U ^= 1 << 63 >> uint(32*r.Intn(2))
		}
		if f.Kind == Float || f.Kind == Double {
			v.U = quiet(f.Kind, v.U)
		}
		v.U = Canon(f.Kind, v.U)
	}
	return v0
}

// Perturb changes a value a little, in a way that a shortcut might overlook: same
// length, same first or last bytes, one bit, one element.
func Perturb(r *rand.Rand, m *MVal) {
	val := func(f *Field, v *Val) { *v = perturbed(r, f, *v) }
	for i, f := range m.T.Fields {
		x := &m.F[i]
		x.ix = nil
		if r.Intn(3) == 0 {
			continue
		}
		switch f.Card {
		case Rep:
			if len(x.L) > 0 {
				val(f, &x.L[r.Intn(len(x.L))])
			}
		case Map:
			if len(x.KV) > 0 {
				val(f, &x.KV[r.Intn(len(x.KV))].V)
			}
		default:
			if !x.Set {
				continue
			}
			val(f, &x.V)
			if !f.Explicit() {
				x.Set = !x.V.Zero(f.Kind)
			}
		}
	}
}

func quiet(k Kind, u uint64) uint64 {
	switch k {
	case Float:
		if u&0x7f800000 == 0x7f800000 && u&0x7fffff != 0 {
			u |= 0x400000
		}
	case Double:
		if u&0x7ff0000000000000 == 0x7ff0000000000000 && u&0xfffffffffffff != 0 {
			u |= 0x8000000000000
		}
	}
	return u
}

// Clone copies a value deeply.
func (m *MVal) Clone() *MVal {
	if m == nil {
		return nil
	}
	c := &MVal{T: m.T, F: make([]FVal, len(m.F))}
	cv := func(v Val) Val { v.M = v.M.Clone(); return v }
	for i := range m.F {
		s, d := &m.F[i], &c.F[i]
		d.Set, d.V = s.Set, cv(s.V)
		for _, e := range s.L {
			d.L = append(d.L, cv(e))
		}
		for _, e := range s.KV {
			d.KV = append(d.KV, KV{e.K, cv(e.V)})
		}
	}
	return c
}

// Merge merges src into m as protobuf prescribes.
func (m *MVal) Merge(src *MVal) {
	src = src.Clone()
	for i, f := range m.T.Fields {
		s, d := &src.F[i], &m.F[i]
		switch f.Card {
		case Rep:
			d.L = append(d.L, s.L...)
		case Map:
			for _, e := range s.KV {
				d.putKV(f, e)
			}
		default:
			if !s.Set {
				continue
			}
			if f.Kind == Message && d.Set {
				d.V.M.Merge(s.V.M)
				continue
			}
			d.Set, d.V = true, s.V
		}
	}
}

func (v *FVal) putKV(f *Field, e KV) {
	if len(v.KV) > 64 {
		k := Val{U: e.K.U}
		if f.Key == String {
			k = Val{S: e.K.S}
		}
		if len(v.ix) != len(v.KV) {
			v.ix = make(map[Val]int, len(v.KV))
			for j := range v.KV {
				if f.Key == String {
					v.ix[Val{S: v.KV[j].K.S}] = j
				} else {
					v.ix[Val{U: v.KV[j].K.U}] = j
				}
			}
		}
		if j, ok := v.ix[k]; ok {
			v.KV[j] = e
			return
		}
		v.ix[k] = len(v.KV)
		v.KV = append(v.KV, e)
		return
	}
	for j := range v.KV {
		if keyEq(f.Key, v.KV[j].K, e.K) {
			v.KV[j] = e
			return
		}
	}
	v.KV = append(v.KV, e)
}

// Diff describes the first difference between two values of one type, or is empty.
func Diff(want, got *MVal) string { return diffM("", want, got) }

func diffM(path string, a, b *MVal) string {
	for i, f := range a.T.Fields {
		p := fmt.Sprintf("%s.%d(%s)", path, f.Num, f.Shape())
		x, y := &a.F[i], &b.F[i]
		switch f.Card {
		case Rep:
			if len(x.L) != len(y.L) {
				return fmt.Sprintf("%s: want %d elements, got %d: want %s got %s", p, len(x.L), len(y.L), clip(x.dump(f)), clip(y.dump(f)))
			}
			for j := range x.L {
				if d := diffV(fmt.Sprintf("%s[%d]", p, j), f, x.L[j], y.L[j]); d != "" {
					return d
				}
			}
		case Map:
			if len(x.KV) != len(y.KV) {
				return fmt.Sprintf("%s: want %d entries, got %d: want %s got %s", p, len(x.KV), len(y.KV), clip(x.dump(f)), clip(y.dump(f)))
			}
			xs, ys := sortKV(f, x.KV), sortKV(f, y.KV)
			for j := range xs {
				if !keyEq(f.Key, xs[j].K, ys[j].K) {
					return fmt.Sprintf("%s: keys differ: want %s got %s", p, clip(x.dump(f)), clip(y.dump(f)))
				}
				if d := diffV(fmt.Sprintf("%s[%s]", p, dumpV(f.Key, xs[j].K)), f, xs[j].V, ys[j].V); d != "" {
					return d
				}
			}
		default:
			if x.Set != y.Set {
				return fmt.Sprintf("%s: want set=%v %s, got set=%v %s", p, x.Set, clip(x.dump(f)), y.Set, clip(y.dump(f)))
			}
			if x.Set {
				if d := diffV(p, f, x.V, y.V); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

func diffV(p string, f *Field, a, b Val) string {
	switch f.Kind {
	case Message:
		return diffM(p, a.M, b.M)
	case String, Bytes:
		if a.S != b.S {
			return fmt.Sprintf("%s: want %s got %s", p, clip(fmt.Sprintf("%q", a.S)), clip(fmt.Sprintf("%q", b.S)))
		}
	default:
		if a.U != b.U {
			return fmt.Sprintf("%s: want %s got %s", p, dumpV(f.Kind, a), dumpV(f.Kind, b))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func sortKV(f *Field, kv []KV) []KV {
	out := append([]KV(nil), kv...)
	sort.Slice(out, func(i, j int) bool { return keyLess(f.Key, out[i].K, out[j].K) })
	return out
}

func dumpV(k Kind, v Val) string {
	switch k {
	case Message:
		return v.M.String()
	case String, Bytes:
		if len(v.S) > 4000 {
			return fmt.Sprintf("%q...(%d bytes, %#x)", v.S[:100], len(v.S), hash(v.S))
		}
		return fmt.Sprintf("%q", v.S)
	case Int32, Int64, Sint32, Sint64, Sfixed32, Sfixed64:
		return fmt.Sprint(int64(v.U))
	case Float, Double:
		return fmt.Sprintf("%#x", v.U)
	}
	return fmt.Sprint(v.U)
}

func hash(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

func (v *FVal) dump(f *Field) string {
	var sb strings.Builder
	if f.Kind != Message && len(v.L)+len(v.KV) > 1000 {
		h := fnv.New64a()
		for _, e := range v.L {
			fmt.Fprint(h, e.U, len(e.S), e.S)
		}
		for _, e := range sortKV(f, v.KV) {
			fmt.Fprint(h, e.K.U, len(e.K.S), e.K.S, e.V.U, len(e.V.S), e.V.S)
		}
		return fmt.Sprintf("(%d elements, %#x)", len(v.L)+len(v.KV), h.Sum64())
	}
	switch f.Card {
	case Rep:
		sb.WriteByte('[')
		for i, e := range v.L {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(dumpV(f.Kind, e))
		}
		sb.WriteByte(']')
	case Map:
		sb.WriteString("map[")
		for i, e := range sortKV(f, v.KV) {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(dumpV(f.Key, e.K) + ":" + dumpV(f.Kind, e.V))
		}
		sb.WriteByte(']')
	default:
		if !v.Set {
			return "unset"
		}
		return dumpV(f.Kind, v.V)
	}
	return sb.String()
}

// String is a canonical rendering of the value.
func (m *MVal) String() string {
	if m == nil {
		return "nil"
	}
	var sb strings.Builder
	sb.WriteByte('{')
	first := true
	for i, f := range m.T.Fields {
		if !m.F[i].Present(f) {
			continue
		}
		if !first {
			sb.WriteByte(' ')
		}
		first = false
		fmt.Fprintf(&sb, "%d:%s", f.Num, m.F[i].dump(f))
	}
	sb.WriteByte('}')
	return sb.String()
}

// ---- Go structs ----

// Room steers the room left behind the slices that Store makes: the cases set it.
var Room atomic.Uint32

// spareRoom is how much more than its length the next slice can hold.
func spareRoom() int {
	x := Room.Add(1) * 0x9e3779b1
	x ^= x >> 15
	x *= 0x85ebca77
	x ^= x >> 13
	if x%3 > 0 {
		return 0
	}
	return int(x>>8%41) + 1
}

func setScalar(dst reflect.Value, k Kind, v Val) {
	switch k {
	case Bool:
		dst.SetBool(v.U != 0)
	case Int32, Int64, Sint32, Sint64, Sfixed32, Sfixed64:
		dst.SetInt(int64(v.U))
	case Uint32, Uint64, Fixed32, Fixed64:
		dst.SetUint(v.U)
	case Float:
		*(*uint32)(dst.Addr().UnsafePointer()) = uint32(v.U)
	case Double:
		*(*uint64)(dst.Addr().UnsafePointer()) = v.U
	case String:
		dst.SetString(v.S)
	case Bytes:
		room := spareRoom()
		if room%20 == 7 { // the front of a much bigger buffer
			room += 90 << (room % 7)
		}
		b := make([]byte, len(v.S)+room)
		for i := range b[len(v.S):] {
			b[len(v.S)+i] = byte(0xa1 + i)
		}
		dst.SetBytes(b[:copy(b, v.S)])
	}
}

func getScalar(src reflect.Value, k Kind) Val {
	if !src.CanAddr() { // an element of a map: a copy has the same bits, a conversion might not
		n := reflect.New(src.Type()).Elem()
		n.Set(src)
		src = n
	}
	switch k {
	case Bool:
		// read the byte: a bool that holds anything but 0 or 1 is memory corruption
		switch b := *(*uint8)(src.Addr().UnsafePointer()); b {
		case 0, 1:
			return Val{U: uint64(b)}
		default:
			return Val{U: 0xbad00 | uint64(b)}
		}
	case Int32, Int64, Sint32, Sint64, Sfixed32, Sfixed64:
		return Val{U: uint64(src.Int())}
	case Uint32, Uint64, Fixed32, Fixed64:
		return Val{U: src.Uint()}
	case Float:
		return Val{U: uint64(*(*uint32)(src.Addr().UnsafePointer()))}
	case Double:
		return Val{U: *(*uint64)(src.Addr().UnsafePointer())}
	case String:
		return Val{S: strings.Clone(src.String())}
	case Bytes:
		return Val{S: string(src.Bytes())}
	}
	panic("getScalar")
}

func setOpt(dst reflect.Value, k Kind, v Val) {
	p := dst.Addr().Interface()
	switch o := p.(type) {
	case *proto.Option[bool]:
		*o = proto.Some(v.U != 0)
	case *proto.Option[int32]:
		*o = proto.Some(int32(v.U))
	case *proto.Option[int64]:
		*o = proto.Some(int64(v.U))
	case *proto.Option[uint32]:
		*o = proto.Some(uint32(v.U))
	case *proto.Option[uint64]:
		*o = proto.Some(v.U)
	case *proto.Option[float32]:
		*o = proto.Some(math.Float32frombits(uint32(v.U)))
	case *proto.Option[float64]:
		*o = proto.Some(math.Float64frombits(v.U))
	case *proto.Option[string]:
		*o = proto.Some(v.S)
	default:
		panic(fmt.Sprintf("setOpt %T", p))
	}
}

func getOpt(src reflect.Value) (bool, Val) {
	p := src.Addr().Interface()
	switch o := p.(type) {
	case *proto.Option[bool]:
		if o.Unwrap() {
			return o.IsSome(), Val{U: 1}
		}
		return o.IsSome(), Val{}
	case *proto.Option[int32]:
		return o.IsSome(), Val{U: uint64(int64(o.Unwrap()))}
	case *proto.Option[int64]:
		return o.IsSome(), Val{U: uint64(o.Unwrap())}
	case *proto.Option[uint32]:
		return o.IsSome(), Val{U: uint64(o.Unwrap())}
	case *proto.Option[uint64]:
		return o.IsSome(), Val{U: o.Unwrap()}
	case *proto.Option[float32]:
		return o.IsSome(), Val{U: uint64(math.Float32bits(o.Unwrap()))}
	case *proto.Option[float64]:
		return o.IsSome(), Val{U: math.Float64bits(o.Unwrap())}
	case *proto.Option[string]:
		return o.IsSome(), Val{S: strings.Clone(o.Unwrap())}
	}
	panic(fmt.Sprintf("getOpt %T", p))
}

// ToGo builds a fresh Go struct holding the value and returns the pointer to it.
func (m *MVal) ToGo() reflect.Value {
	p := reflect.New(m.T.Go)
	m.Store(p.Elem())
	return p
}

// Store writes all declared fields of the Go struct.
func (m *MVal) Store(s reflect.Value) {
	elem := func(dst reflect.Value, f *Field, v Val) {
		if f.Kind == Message {
			dst.Set(v.M.ToGo())
		} else {
			setScalar(dst, f.Kind, v)
		}
	}
	for i, f := range m.T.Fields {
		v := &m.F[i]
		dst := s.Field(f.GoIndex)
		switch f.Card {
		case Rep:
			if len(v.L) == 0 {
				continue
			}
			sl := reflect.MakeSlice(dst.Type(), len(v.L), len(v.L)+spareRoom())
			for j, e := range v.L {
				elem(sl.Index(j), f, e)
			}
			// what was cut off is still there
			for j := len(v.L); j < sl.Cap() && j < len(v.L)+3; j++ {
				sl.Slice(0, j+1).Index(j).Set(sl.Index(j % len(v.L)))
			}
			dst.Set(sl)
		case Map:
			if len(v.KV) == 0 {
				continue
			}
			mp := reflect.MakeMap(dst.Type())
			for _, e := range v.KV {
				kv := reflect.New(dst.Type().Key()).Elem()
				setScalar(kv, f.Key, e.K)
				vv := reflect.New(dst.Type().Elem()).Elem()
				elem(vv, f, e.V)
				mp.SetMapIndex(kv, vv)
			}
			dst.Set(mp)
		case Opt:
			if v.Set {
				setOpt(dst, f.Kind, v.V)
			}
		case Ptr:
			if v.Set {
				n := reflect.New(dst.Type().Elem())
				setScalar(n.Elem(), f.Kind, v.V)
				dst.Set(n)
			}
		default:
			if v.Set {
				elem(dst, f, v.V)
			}
		}
	}
}

// FromGoVal reads the declared fields of a Go struct (p is the pointer to it).
func FromGoVal(t *Msg, p reflect.Value) *MVal {
	m := NewM(t)
	s := p.Elem()
	elem := func(src reflect.Value, f *Field) Val {
		if f.Kind == Message {
			if src.IsNil() {
				// the harness puts none there
				Fail("field %d of %s: an element of the list or map is a nil message", f.Num, t.Name)
			}
			return Val{M: FromGoVal(f.Sub, src)}
		}
		return getScalar(src, f.Kind)
	}
	for i, f := range t.Fields {
		v := &m.F[i]
		src := s.Field(f.GoIndex)
		switch f.Card {
		case Rep:
			if src.Len() > src.Cap() {
				Fail("field %d of %s: a list of length %d has capacity %d", f.Num, t.Name, src.Len(), src.Cap())
			}
			for j := 0; j < src.Len(); j++ {
				v.L = append(v.L, elem(src.Index(j), f))
			}
		case Map:
			it := src.MapRange()
			for it.Next() {
				v.KV = append(v.KV, KV{getScalar(it.Key(), f.Key), elem(it.Value(), f)})
			}
		case Opt:
			v.Set, v.V = getOpt(src)
		case Ptr:
			if !src.IsNil() {
				v.Set, v.V = true, getScalar(src.Elem(), f.Kind)
			}
		default:
			switch f.Kind {
			case Message:
				if !src.IsNil() {
					v.Set, v.V = true, elem(src, f)
				}
			case Bytes:
				if !src.IsNil() {
					v.Set, v.V = true, getScalar(src, f.Kind)
				}
			default:
				v.V = getScalar(src, f.Kind)
				v.Set = !v.V.Zero(f.Kind)
			}
		}
	}
	return m
}

// ---- canaries ----

// Snap is what the undeclared fields of a struct held.
type Snap struct {
	raw  [][]byte      // their memory
	deep map[int]*MVal // what hangs off them, by Go index
	pm   map[int]*Msg
}

// Len is the number of fields.
func (s *Snap) Len() int { return len(s.raw) }

// lone is a message type with f as its only field, for memory that holds f's Go type.
func lone(f *Field) *Msg {
	g := *f
	g.GoIndex, g.GoName = 0, "F"
	return &Msg{Name: "undeclared", Fields: []*Field{&g}, Go: reflect.StructOf([]reflect.StructField{{Name: "F", Type: f.goType()}})}
}

// FillCanaries puts a recognisable pattern into every undeclared field of the
// struct and returns a snapshot of them.
func FillCanaries(t *Msg, p reflect.Value, r *rand.Rand) *Snap {
	s := p.Elem()
	snap := &Snap{}
	hidden := map[int]*Field{}
	for _, f := range t.Hidden {
		hidden[f.GoIndex] = f
	}
	for _, i := range t.Canary {
		f := s.Field(i)
		if h := hidden[i]; h != nil {
			if snap.deep == nil {
				snap.deep, snap.pm = map[int]*MVal{}, map[int]*Msg{}
			}
			m := lone(h)
			b := 8
			v := GenM(r, m, &ValOpt{MaxList: 3, MaxStr: 8, Fill: 85, Budget: &b, MaxDepth: 2})
			v.Store(reflect.NewAt(m.Go, unsafe.Pointer(f.UnsafeAddr())).Elem())
			snap.deep[i], snap.pm[i] = v, m
		} else if f.Type().Kind() == reflect.String {
			*(*string)(unsafe.Pointer(f.UnsafeAddr())) = "canary"
		} else if !hasPointers(f.Type()) {
			b := unsafe.Slice((*byte)(unsafe.Pointer(f.UnsafeAddr())), f.Type().Size())
			for j := range b {
				b[j] = byte(1 + r.Intn(255))
			}
		} else {
			w := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			switch w.Kind() {
			case reflect.Interface:
				if w.NumMethod() == 0 {
					w.Set(reflect.ValueOf("canary"))
				}
			case reflect.Func:
				w.Set(reflect.MakeFunc(w.Type(), func([]reflect.Value) []reflect.Value { return nil }))
			case reflect.Slice:
				w.Set(reflect.MakeSlice(w.Type(), 3, 5))
			case reflect.Map:
				w.Set(reflect.MakeMap(w.Type()))
			}
		}
		snap.raw = append(snap.raw, rawBytes(f))
	}
	return snap
}

// CheckCanaries compares the undeclared fields with the snapshot.
func CheckCanaries(t *Msg, p reflect.Value, snap *Snap) string {
	s := p.Elem()
	for n, i := range t.Canary {
		f := s.Field(i)
		if got := rawBytes(f); string(got) != string(snap.raw[n]) {
			return fmt.Sprintf("undeclared field %s changed from %x to %x", t.Go.Field(i).Name, snap.raw[n], got)
		}
		if m := snap.pm[i]; m != nil {
			if d := Diff(snap.deep[i], FromGoVal(m, reflect.NewAt(m.Go, unsafe.Pointer(f.UnsafeAddr())))); d != "" {
				return fmt.Sprintf("what undeclared field %s refers to changed: %s", t.Go.Field(i).Name, d)
			}
		}
	}
	return ""
}

func rawBytes(f reflect.Value) []byte {
	return append([]byte(nil), unsafe.Slice((*byte)(unsafe.Pointer(f.UnsafeAddr())), f.Type().Size())...)
}

func hasPointers(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8,
		reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return false
	case reflect.Array:
		return hasPointers(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasPointers(t.Field(i).Type) {
				return true
			}
		}
		return false
	}
	return true
}

// endless are the message types of m from which messages can nest without end.
func endless(m *Msg) map[*Msg]bool {
	in := map[*Msg]bool{}
	for _, x := range m.All() {
		in[x] = true
	}
	for again := true; again; {
		again = false
		for x := range in {
			ok := false
			for _, f := range x.Fields {
				ok = ok || f.Sub != nil && in[f.Sub]
			}
			if !ok {
				delete(in, x)
				again = true
			}
		}
	}
	return in
}

// Deep grows a chain of so many nested messages out of m, through random fields. It
// returns false if the type does not allow that.
func Deep(r *rand.Rand, m *MVal, levels int) bool {
	in := endless(m.T)
	if !in[m.T] {
		return false
	}
	for ; levels > 0; levels-- {
		var edges []int
		for i, f := range m.T.Fields {
			if f.Sub != nil && in[f.Sub] {
				edges = append(edges, i)
			}
		}
		i := edges[r.Intn(len(edges))]
		f, x := m.T.Fields[i], &m.F[i]
		b := r.Intn(3)
		c := GenM(r, f.Sub, &ValOpt{MaxList: 1, MaxStr: 9, Fill: 30, Budget: &b, MaxDepth: 0})
		switch f.Card {
		case Rep:
			x.L = append(x.L, Val{M: c})
			j := r.Intn(len(x.L))
			x.L[j], x.L[len(x.L)-1] = x.L[len(x.L)-1], x.L[j]
		case Map:
			b = 3
			x.putKV(f, KV{GenVal(r, f.Key, nil, &ValOpt{MaxStr: 9, Budget: &b}), Val{M: c}})
		default:
			x.Set, x.V = true, Val{M: c}
		}
		m = c
	}
	return true
}
