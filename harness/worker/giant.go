package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"unsafe"

	"verif/vf"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	props["C02giant"] = prop{run: c02giant}
	props["C01giant"] = prop{run: c01giant}
	props["C05giant"] = prop{run: c05giant}
	props["C06giant"] = prop{run: c06giant}
}

// Huge is a message whose parts may be the same memory many times over, so that its
// encoding can be far bigger than the message.
type Huge struct {
	S  []string             `protobuf:"bytes,1,rep"`
	B  [][]byte             `protobuf:"bytes,2,rep"`
	M  map[int32]string     `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	N  []*Huge              `protobuf:"bytes,4,rep"`
	O  *Huge                `protobuf:"bytes,5,opt"`
	Z  string               `protobuf:"bytes,6,opt"`
	P  proto.Option[string] `protobuf:"bytes,16,opt"`
	MM map[string]*Huge     `protobuf:"bytes,17,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	Y  []byte               `protobuf:"bytes,2048,opt"`
}

func varintLen(n uint64) uint64 {
	k := uint64(1)
	for ; n >= 0x80; n >>= 7 {
		k++
	}
	return k
}

func record(tag, n uint64) uint64 { return tag + varintLen(n) + n }

func (h *Huge) bytes(seen map[*Huge]uint64) uint64 {
	if n, ok := seen[h]; ok {
		return n
	}
	n := uint64(0)
	for _, s := range h.S {
		n += record(1, uint64(len(s)))
	}
	for _, s := range h.B {
		n += record(1, uint64(len(s)))
	}
	for k, s := range h.M {
		n += record(1, 1+varintLen(uint64(int64(k)))+record(1, uint64(len(s))))
	}
	for _, x := range h.N {
		n += record(1, x.bytes(seen))
	}
	if h.O != nil {
		n += record(1, h.O.bytes(seen))
	}
	if h.Z != "" {
		n += record(1, uint64(len(h.Z)))
	}
	if h.P.IsSome() {
		n += record(2, uint64(len(h.P.Unwrap())))
	}
	for k, x := range h.MM {
		n += record(2, record(1, uint64(len(k)))+record(1, x.bytes(seen)))
	}
	if h.Y != nil {
		n += record(3, uint64(len(h.Y)))
	}
	seen[h] = n
	return n
}

// huge draws a message whose encoding has about so many bytes.
func huge(r *rand.Rand, stuff string, target uint64, depth int) *Huge {
	h := &Huge{}
	if r.Intn(3) == 0 {
		h.P = proto.String(stuff[:r.Intn(100)])
	}
	if r.Intn(3) == 0 {
		h.Y = []byte(stuff[:r.Intn(300)])
	}
	piece := func(most uint64) string {
		l := len(stuff) / (1 + r.Intn(3))
		if uint64(l) > most {
			l = int(most)
		}
		return stuff[:l][r.Intn(l/1000+1):]
	}
	k := r.Intn(8)
	if depth == 0 || target < 4<<20 {
		k = r.Intn(3)
	}
	switch {
	case k == 0:
		for n := uint64(0); n < target; {
			s := piece(target - n)
			h.S = append(h.S, s)
			n += uint64(len(s))
		}
	case k == 1:
		b := []byte(piece(target))
		for n := uint64(0); n+uint64(len(b)) <= target && len(b) > 0; n += uint64(len(b)) {
			h.B = append(h.B, b)
		}
	case k == 2:
		h.M = map[int32]string{}
		for n := uint64(0); n < target; {
			s := piece(target - n)
			h.M[int32(r.Uint32())] = s
			n += uint64(len(s))
		}
	case k < 5:
		m := 1 + r.Intn(min(100, int(target>>20)))
		x := huge(r, stuff, target/uint64(m), depth-1)
		for ; m > 0; m-- {
			h.N = append(h.N, x)
		}
	case k < 7:
		h.O = huge(r, stuff, target, depth-1)
	default:
		m := 1 + r.Intn(min(30, int(target>>20)))
		x := huge(r, stuff, target/uint64(m), depth-1)
		h.MM = map[string]*Huge{}
		for ; m > 0; m-- {
			h.MM[fmt.Sprint(m)] = x
		}
	}
	return h
}

// trim makes the encoding exactly so long, if it can.
func (h *Huge) trim(stuff string, target uint64) {
	if n := h.bytes(map[*Huge]uint64{}); n < target && h.Z == "" {
		for l := target - n; l > target-n-8 && l < uint64(len(stuff)); l-- {
			if n+record(1, l) == target {
				h.Z = stuff[:l]
				return
			}
		}
	}
}

// walk compares the encoding with the message.
func (c *Ctx) hugeWalk(h *Huge, b []byte, at string) {
	toks, ok := vf.Tokens(b)
	if !ok {
		c.Fail("%s: the encoding is not a sequence of records (%d bytes)", at, len(b))
	}
	var s, bb, n, m, mm int
	str := func(field string, want string, got []byte) {
		if want != string(got) {
			c.Fail("%s.%s: %d bytes differ from the %d of the message", at, field, len(got), len(want))
		}
	}
	for _, k := range toks {
		switch k.Num {
		case 1:
			if s >= len(h.S) {
				c.Fail("%s: too many strings", at)
			}
			str("S", h.S[s], k.Data)
			s++
		case 2:
			if bb >= len(h.B) || !bytes.Equal(h.B[bb], k.Data) {
				c.Fail("%s: element %d of B differs", at, bb)
			}
			bb++
		case 3, 17:
			e, ok := vf.Tokens(k.Data)
			if !ok || len(e) != 2 || e[0].Num != 1 || e[1].Num != 2 {
				c.Fail("%s: malformed map entry of %d bytes", at, len(k.Data))
			}
			if k.Num == 3 {
				str("M", h.M[int32(e[0].U)], e[1].Data)
				m++
			} else {
				x := h.MM[string(e[0].Data)]
				if x == nil {
					c.Fail("%s: key %q", at, e[0].Data)
				}
				c.hugeWalk(x, e[1].Data, at+".MM")
				mm++
			}
		case 4:
			if n >= len(h.N) {
				c.Fail("%s: too many messages", at)
			}
			c.hugeWalk(h.N[n], k.Data, at+".N")
			n++
		case 5:
			c.hugeWalk(h.O, k.Data, at+".O")
		case 6:
			str("Z", h.Z, k.Data)
		case 16:
			str("P", h.P.Unwrap(), k.Data)
		case 2048:
			str("Y", string(h.Y), k.Data)
		default:
			c.Fail("%s: field %d", at, k.Num)
		}
	}
	if s != len(h.S) || bb != len(h.B) || n != len(h.N) || m != len(h.M) || mm != len(h.MM) {
		c.Fail("%s: of %d strings, %d byte strings, %d messages and %d entries only %d, %d, %d and %d were encoded", at, len(h.S), len(h.B), len(h.N),
			len(h.M)+len(h.MM), s, bb, n, m+mm)
	}
}

var edges = []uint64{1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 5, 5 << 30, 1 << 35, 1<<35 + 7}

func stuffing(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 ^ i>>9)
	}
	return string(b)
}

// c02giant sizes and encodes messages of gigabytes.
func c02giant(c *Ctx) {
	debug.SetGCPercent(10)
	stuff := stuffing(24 << 20)
	switch c.Case {
	case 0: // sizes only, which touches little memory
		most := uint64(5) << 30
		room := make([]byte, int(most+100)) // never run where int has 32 bits
		endless := unsafe.String(&room[0], len(room))
		for i := 0; i < 400; i++ {
			target := edges[c.R.Intn(len(edges))]
			h := huge(c.R, stuff, target, 5)
			switch d := c.R.Intn(6); {
			case d >= 4: // a single string of so many bytes; nobody looks at them
				s := endless[:min(target, most)-uint64(c.R.Intn(40))]
				h = &Huge{}
				switch c.R.Intn(6) {
				case 0:
					h.Z = s
				case 1:
					h.S = []string{"", s, "x"}
				case 2:
					h.P = proto.String(s)
				case 3:
					h.M = map[int32]string{-1: s}
				case 4:
					h.Y = unsafe.Slice(unsafe.StringData(s), len(s))
				default:
					h.B = [][]byte{unsafe.Slice(unsafe.StringData(s), len(s))}
				}
				if c.Chance(50) {
					h = &Huge{O: h}
				}
				c.Cover("one string of so many bytes")
			case d == 0: // a field next to the giant one
				h = &Huge{O: h, S: []string{"a"}}
			case d == 1:
				h = &Huge{MM: map[string]*Huge{"": h}}
			}
			over := h.bytes(map[*Huge]uint64{})
			h.trim(stuff, over-over%64+uint64(c.R.Intn(300)))
			want := h.bytes(map[*Huge]uint64{})
			if got := proto.Size(h); uint64(got) != want {
				c.Fail("Size is %d, the encoding has %d bytes (lists of %d, %d and %d, maps of %d and %d)", got, want, len(h.S), len(h.B), len(h.N), len(h.M), len(h.MM))
			}
			c.Eval()
			c.Cover(fmt.Sprintf("size about 2^%d", bitlen(want)))
			c.Nontrivial("size", want)
		}
	case 1, 2:
		target := uint64(1<<31 + 1<<25)
		if c.Case == 2 {
			target = 1<<32 + 1<<25
		}
		h := huge(c.R, stuff, target, 3)
		h = &Huge{O: h, S: []string{"before"}, P: proto.String("after"), MM: map[string]*Huge{"k": {Z: "z"}}}
		want := h.bytes(map[*Huge]uint64{})
		c.Trace("%d bytes", want)
		b := vf.MustMarshal(h)
		if uint64(len(b)) != want || uint64(proto.Size(h)) != want {
			c.Fail("the encoding has %d bytes, Size says %d, want %d", len(b), proto.Size(h), want)
		}
		c.hugeWalk(h, b, "")
		c.Eval()
		c.Cover(fmt.Sprintf("encoding about 2^%d", bitlen(want)))
		c.Nontrivial("encoding", want)
	}
}

func bitlen(n uint64) int {
	k := 0
	for ; n > 1; n >>= 1 {
		k++
	}
	return k
}

// c01giant takes a message of gigabytes round.
func c01giant(c *Ctx) {
	debug.SetGCPercent(10)
	stuff := stuffing(24 << 20)
	target := uint64(1<<31 + 1<<25)
	if c.Case == 1 {
		target = 1<<32 + 1<<25
	}
	h := &Huge{O: huge(c.R, stuff, target, 3), S: []string{"before"}, P: proto.String("after"), MM: map[string]*Huge{"k": {Z: "z"}}}
	b := vf.MustMarshal(h)
	c.Trace("%d bytes", len(b))
	q := &Huge{}
	if err := vf.Unmarshal(b, q); err != nil {
		c.Fail("decoding what was encoded failed: %v", err)
	}
	b = nil
	runtime.GC()
	if !sameHuge(h, q) {
		c.Fail("round trip changed the message")
	}
	c.Eval()
	c.Cover(fmt.Sprintf("message about 2^%d bytes", bitlen(target)))
	c.Nontrivial("giant", h.bytes(map[*Huge]uint64{}))
}

func sameHuge(a, b *Huge) bool {
	if a == nil || b == nil {
		return a == b
	}
	if len(a.S) != len(b.S) || len(a.B) != len(b.B) || len(a.N) != len(b.N) || len(a.M) != len(b.M) || len(a.MM) != len(b.MM) {
		return false
	}
	for i := range a.S {
		if a.S[i] != b.S[i] {
			return false
		}
	}
	for i := range a.B {
		if !bytes.Equal(a.B[i], b.B[i]) {
			return false
		}
	}
	for i := range a.N {
		if !sameHuge(a.N[i], b.N[i]) {
			return false
		}
	}
	for k, s := range a.M {
		if t, ok := b.M[k]; !ok || s != t {
			return false
		}
	}
	for k, x := range a.MM {
		if b.MM[k] == nil || !sameHuge(x, b.MM[k]) {
			return false
		}
	}
	return sameHuge(a.O, b.O) && a.Z == b.Z && a.P == b.P && reflect.DeepEqual(a.Y, b.Y)
}

// c05giant decodes input in which a record of an unknown field has gigabytes. Nothing but
// its first bytes needs to be looked at, and nothing else is in memory.
func c05giant(c *Ctx) {
	debug.SetGCPercent(10)
	most := uint64(1<<32 + 1<<13)
	buf := make([]byte, int(most)) // never run where int has 32 bits
	for i := 0; i < 60; i++ {
		size := []uint64{1<<28 - 1, 1<<31 - 1, 1 << 31, 1<<31 + 5, 1<<32 - 1, 1 << 32, 1<<32 + 5, 3 << 30}[c.R.Intn(8)]
		num := []uint64{7, 15, 18, 2047, 2049, 1<<29 - 1}[c.R.Intn(6)]
		// in front of the giant record and behind it
		front := &Huge{Z: fmt.Sprint("front ", i), S: []string{"one"}}
		back := &Huge{P: proto.String(fmt.Sprint("back ", i)), S: []string{"two"}}
		unknown := vf.PutVarint(vf.PutVarint(nil, num<<3|2), size)
		depth := c.R.Intn(4)
		// lay out from the inside: head is what comes before the giant bytes, tail what comes after
		head := append(vf.MustMarshal(front), unknown...)
		tail := vf.MustMarshal(back)
		var path []int
		for d := 0; d < depth; d++ {
			n := uint64(len(head)) + size + uint64(len(tail))
			k := c.R.Intn(3)
			path = append(path, k)
			switch k {
			case 0: // a message
				head = append(vf.PutVarint([]byte{5<<3 | 2}, n), head...)
			case 1: // an element of a list
				head = append(vf.PutVarint([]byte{4<<3 | 2}, n), head...)
			case 2: // the value of a map
				e := vf.PutVarint([]byte{1<<3 | 2, 1, 'k', 2<<3 | 2}, n)
				head = append(append(vf.PutVarint(vf.PutVarint(nil, 17<<3|2), n+uint64(len(e))), e...), head...)
			}
			head = append([]byte{6<<3 | 2, 1, byte('a' + d)}, head...)
		}
		total := uint64(len(head)) + size + uint64(len(tail))
		if total > uint64(len(buf)) {
			panic("c05giant: too long")
		}
		c.Trace("unknown field %d of %d bytes at depth %d, path %v", num, size, depth, path)
		b := buf[:total:total]
		copy(b, head)
		copy(b[total-uint64(len(tail)):], tail)
		q := &Huge{}
		err := vf.Unmarshal(b, q)
		for i := range head {
			b[i] = 0
		}
		for i := range tail {
			b[total-uint64(len(tail))+uint64(i)] = 0
		}
		if err != nil {
			c.Fail("an unknown record of %d bytes (field %d, depth %d) is refused: %v", size, num, depth, err)
		}
		at := q
		for d := depth - 1; d >= 0; d-- {
			if at.Z != string(rune('a'+d)) {
				c.Fail("next to an unknown record of %d bytes: a field holds %q", size, at.Z)
			}
			switch {
			case path[d] == 0 && at.O != nil:
				at = at.O
			case path[d] == 1 && len(at.N) == 1:
				at = at.N[0]
			case path[d] == 2 && at.MM["k"] != nil:
				at = at.MM["k"]
			default:
				c.Fail("around an unknown record of %d bytes: a nested message was lost", size)
			}
		}
		want := &Huge{Z: front.Z, S: []string{"one", "two"}, P: back.P}
		if !sameHuge(want, at) {
			c.Fail("next to an unknown record of %d bytes (field %d, depth %d): got %v %v %v", size, num, depth, at.Z, at.S, at.P)
		}
		c.Eval()
		c.Cover(fmt.Sprintf("unknown record of about 2^%d bytes", bitlen(size)))
		c.Nontrivial("giant", size, num, depth)
		c.trace = c.trace[:0]
	}
}

// c06giant decodes inputs of more than a gigabyte in which a length promises more than there
// is, near the end, where positions and lengths together no longer fit 31 bits.
func c06giant(c *Ctx) {
	debug.SetGCPercent(10)
	buf := make([]byte, 1<<30+1<<28) // nearly all of it is never touched
	for i := 0; i < 300; i++ {
		n := len(buf) - c.R.Intn(1<<20)
		if c.Chance(20) {
			n = len(buf) - c.R.Intn(len(buf)/3)
		}
		b := buf[:n:n]
		end := 0
		put := func(p []byte) { end += copy(b[end:], p) }
		put(vf.MustMarshal(&Huge{Z: "front", S: []string{"one"}}))
		// around it all
		depth := c.R.Intn(3)
		for d := 0; d < depth; d++ {
			tag := []uint64{4<<3 | 2, 5<<3 | 2, 17<<3 | 2}[c.R.Intn(3)]
			if tag == 17<<3|2 { // an entry, and its value
				put(vf.PutVarint(nil, tag))
				put(vf.PutVarint(nil, uint64(n-end-5)))
				tag = 2<<3 | 2
			}
			put(vf.PutVarint(nil, tag))
			put(vf.PutVarint(nil, uint64(n-end-5)))
		}
		// skipped
		rest := []int{20, 100, 1 << 12, 1 << 20, n / 8, n / 4, n / 2}[c.R.Intn(7)] + c.R.Intn(64)
		if skip := n - end - 6 - rest; skip > 1<<28 {
			put(vf.PutVarint(nil, 7<<3|2))
			put(vf.PutVarint(nil, uint64(skip)))
			end += skip
		}
		// the promise
		num := []uint64{7, 15, 18, 2047, 1<<29 - 1, 1, 2, 3, 4, 5, 6, 16, 17, 2048}[c.R.Intn(14)]
		mark := end
		put(vf.PutVarint(nil, num<<3|2))
		left := uint64(n - end)
		var claim uint64
		switch c.R.Intn(12) {
		case 0:
			claim = left - 5 // in five bytes, the exact length
		case 1:
			claim = left - 4
		case 2:
			claim = uint64(n)
		case 3:
			claim = uint64(n) - 5 - uint64(c.R.Intn(8))
		case 4:
			claim = 1<<31 - uint64(end) + uint64(c.R.Intn(16)) - 8
		case 5:
			claim = 1<<31 - 1 - uint64(c.R.Intn(16))
		case 6:
			claim = 1<<32 - uint64(end) + uint64(c.R.Intn(16)) - 8
		case 7:
			claim = 1<<32 + uint64(c.R.Intn(16)) - 8
		case 8:
			claim = 1<<32 + uint64(c.R.Intn(int(left)))
		case 9:
			claim = 1<<63 + uint64(c.R.Intn(1<<16)) - 1<<15
		case 10:
			claim = -uint64(c.R.Intn(1<<16)) - 1
		default:
			claim = left + uint64(c.R.Intn(n))
		}
		width := 5
		if claim >= 1<<35 {
			width = 10
		}
		put(vf.PutVarintN(nil, claim, width))
		wipe := func() {
			for j := 0; j < 256; j++ {
				b[j] = 0
			}
			for j := range b[mark:end] {
				b[mark+j] = 0
			}
		}
		unknown := num == 7 || num == 15 || num == 18 || num == 2047 || num == 1<<29-1
		fits := claim == uint64(n-end)
		if claim < uint64(n-end) || fits && !unknown { // not what is of interest here
			wipe()
			continue
		}
		c.Trace("%d bytes, depth %d; field %d at %d claims %d bytes, %d are left", n, depth, num, mark, claim, n-end)
		q := &Huge{}
		err := vf.Unmarshal(b, q)
		wipe()
		if fits != (err == nil) {
			c.Fail("in %d bytes, field %d at %d claims %d bytes where %d are left: error %v", n, num, mark, claim, n-end, err)
		}
		if q.Z != "front" || len(q.S) != 1 {
			c.Fail("what came before was lost")
		}
		c.Eval()
		c.Cover(fmt.Sprintf("giant input:depth %d, fits %t", depth, fits))
		c.Nontrivial(n, depth, num, claim)
		c.trace = c.trace[:0]
	}
}
