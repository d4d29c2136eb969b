package vf

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
)

// ---- reference encoder ----

// PutVarint appends v in its shortest form.
func PutVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// PutVarintN appends v using at least n bytes (n <= 10).
func PutVarintN(b []byte, v uint64, n int) []byte {
	start := len(b)
	b = PutVarint(b, v)
	for len(b)-start < n {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// EncOpt selects the legal freedoms the reference encoder uses.
type EncOpt struct {
	Shuffle  bool // fields in any order
	Packed   bool // random packing of lists
	LongVar  bool // over-long varints for values, tags and lengths
	Wide     bool // 32-bit values as wider varints
	Repeat   bool // singular fields several times, split messages, repeated keys
	MapForms bool // map entries reordered, defaults omitted, fields repeated
	Unknown  int  // per cent chance of an unknown field at each position
	Pads     int  // at up to so many of these positions, very many unknown fields
	Pad      int  // bytes of them, roughly
}

// AllForms turns everything on except unknown fields.
func AllForms() *EncOpt {
	return &EncOpt{Shuffle: true, Packed: true, LongVar: true, Wide: true, Repeat: true, MapForms: true}
}

type enc struct {
	r    *rand.Rand
	o    *EncOpt
	long int // per cent of varints longer than necessary
}

// Encode gives the canonical encoding (fields in order, shortest varints, unpacked).
func Encode(m *MVal) []byte {
	e := &enc{o: &EncOpt{}}
	return e.msg(m)
}

// EncodeVariant gives a random legal encoding.
func EncodeVariant(r *rand.Rand, m *MVal, o *EncOpt) []byte {
	e := &enc{r: r, o: o}
	if o.LongVar {
		e.long = []int{5, 15, 15, 50, 90}[r.Intn(5)]
	}
	return e.msg(m)
}

func (e *enc) tag(b []byte, num int32, wt int) []byte {
	v := uint64(num)<<3 | uint64(wt)
	if e.o.LongVar && e.r.Intn(100) < e.long {
		return PutVarintN(b, v, 1+e.r.Intn(5))
	}
	return PutVarint(b, v)
}

func (e *enc) length(b []byte, n int) []byte {
	if e.o.LongVar && e.r.Intn(100) < e.long {
		return PutVarintN(b, uint64(n), 1+e.r.Intn(5))
	}
	return PutVarint(b, uint64(n))
}

func (e *enc) varint(b []byte, v uint64) []byte {
	if e.o.LongVar && e.r.Intn(50) < e.long {
		return PutVarintN(b, v, 1+e.r.Intn(10))
	}
	return PutVarint(b, v)
}

// payload appends the value without its tag.
func (e *enc) payload(b []byte, k Kind, v Val) []byte {
	switch k {
	case Bool:
		if v.U != 0 && e.o.Wide && e.r.Intn(3) == 0 {
			return e.varint(b, []uint64{2, 127, 128, 256, 1 << 14, 1 << 32, 1 << 63}[e.r.Intn(7)])
		}
		return e.varint(b, v.U)
	case Int32:
		u := v.U
		if e.o.Wide {
			switch e.r.Intn(4) {
			case 0:
				u = uint64(uint32(u)) // negative values without sign extension
			case 1:
				u = uint64(uint32(u)) | e.r.Uint64()<<32
			}
		}
		return e.varint(b, u)
	case Uint32:
		u := v.U
		if e.o.Wide {
			switch e.r.Intn(4) {
			case 0:
				u = uint64(int64(int32(u)))
			case 1:
				u |= e.r.Uint64() << 32
			}
		}
		return e.varint(b, u)
	case Int64, Uint64:
		return e.varint(b, v.U)
	case Sint32, Sint64:
		return e.varint(b, v.U<<1^uint64(int64(v.U)>>63))
	case Fixed32, Sfixed32, Float:
		return binary.LittleEndian.AppendUint32(b, uint32(v.U))
	case Fixed64, Sfixed64, Double:
		return binary.LittleEndian.AppendUint64(b, v.U)
	case String, Bytes:
		b = e.length(b, len(v.S))
		return append(b, v.S...)
	case Message:
		var s []byte
		if v.M != nil {
			s = e.msg(v.M)
		}
		b = e.length(b, len(s))
		return append(b, s...)
	}
	panic("payload")
}

func (e *enc) record(num int32, k Kind, v Val) []byte {
	return e.payload(e.tag(nil, num, k.Wire()), k, v)
}

func (e *enc) junk(k Kind) Val {
	switch k {
	case String, Bytes:
		return Val{S: genStr(e.r, &ValOpt{MaxStr: 20}, false)}
	}
	return Val{U: GenNum(e.r, k)}
}

// field gives the records of one field; their order matters.
func (e *enc) field(f *Field, v *FVal) [][]byte {
	var out [][]byte
	switch f.Card {
	case Rep:
		for i := 0; i < len(v.L); {
			if e.o.Packed && f.Kind.Packable() && e.r.Intn(3) > 0 {
				n := 1 + e.r.Intn(len(v.L)-i)
				if e.r.Intn(2) == 0 {
					n = len(v.L) - i
				}
				var p []byte
				for _, x := range v.L[i : i+n] {
					p = e.payload(p, f.Kind, x)
				}
				b := e.length(e.tag(nil, f.Num, 2), len(p))
				out = append(out, append(b, p...))
				i += n
				continue
			}
			out = append(out, e.record(f.Num, f.Kind, v.L[i]))
			i++
		}
		if e.o.Packed && f.Kind.Packable() && e.r.Intn(16) == 0 { // an empty packed block is legal
			out = append(out, e.length(e.tag(nil, f.Num, 2), 0))
		}
	case Map:
		for _, kv := range v.KV {
			if e.o.Repeat && e.r.Intn(6) == 0 { // an earlier entry with the same key is replaced
				j := kv
				if f.Kind == Message {
					j.V = Val{M: GenM(e.r, f.Sub, smallVal())}
				} else {
					j.V = e.junk(f.Kind)
					if e.r.Intn(2) == 0 {
						j.V = perturbed(e.r, f, kv.V)
					}
				}
				out = append(out, e.entry(f, j))
			}
			out = append(out, e.entry(f, kv))
		}
	default:
		if !v.Set {
			return nil
		}
		if f.Kind == Message {
			if e.o.Repeat && e.r.Intn(4) == 0 { // split into pieces that merge
				recs := e.records(v.V.M)
				cut := e.r.Intn(len(recs) + 1)
				for _, part := range [][][]byte{recs[:cut], recs[cut:]} {
					s := join(part)
					out = append(out, append(e.length(e.tag(nil, f.Num, 2), len(s)), s...))
				}
				return out
			}
			return [][]byte{e.record(f.Num, f.Kind, v.V)}
		}
		if e.o.Repeat && e.r.Intn(5) == 0 {
			for n := 1 + e.r.Intn(2); n > 0; n-- {
				x := e.junk(f.Kind)
				if e.r.Intn(2) == 0 { // almost the final value
					x = perturbed(e.r, f, v.V)
				}
				out = append(out, e.record(f.Num, f.Kind, x))
			}
		}
		out = append(out, e.record(f.Num, f.Kind, v.V))
	}
	return out
}

func smallVal() *ValOpt {
	b := 8
	return &ValOpt{MaxList: 2, MaxStr: 5, Fill: 50, Budget: &b, MaxDepth: 2}
}

func (e *enc) entry(f *Field, kv KV) []byte {
	var recs [][]byte
	omitK := e.o.MapForms && kv.K.Zero(f.Key) && e.r.Intn(2) == 0
	omitV := e.o.MapForms && kv.V.Zero(f.Kind) && e.r.Intn(2) == 0
	var ks, vs [][]byte
	if !omitK {
		if e.o.MapForms && e.r.Intn(8) == 0 {
			ks = append(ks, e.record(1, f.Key, e.junk(f.Key)))
		}
		ks = append(ks, e.record(1, f.Key, kv.K))
	}
	if !omitV {
		if e.o.MapForms && e.r.Intn(8) == 0 && f.Kind != Message {
			vs = append(vs, e.record(2, f.Kind, e.junk(f.Kind)))
		}
		if e.o.MapForms && f.Kind == Message && e.r.Intn(8) == 0 {
			mr := e.records(kv.V.M)
			cut := e.r.Intn(len(mr) + 1)
			for _, part := range [][][]byte{mr[:cut], mr[cut:]} {
				s := join(part)
				vs = append(vs, append(e.length(e.tag(nil, 2, 2), len(s)), s...))
			}
		} else {
			vs = append(vs, e.record(2, f.Kind, kv.V))
		}
	}
	recs = [][]byte{}
	if e.o.MapForms && e.r.Intn(3) == 0 {
		recs = append(append(recs, vs...), ks...)
	} else {
		recs = append(append(recs, ks...), vs...)
	}
	if e.o.Unknown > 0 {
		recs = e.inject(recs, func() []byte { return UnknownRecord(e.r, entryNum(e.r)) })
	}
	s := join(recs)
	return append(e.length(e.tag(nil, f.Num, 2), len(s)), s...)
}

func join(recs [][]byte) []byte {
	var out []byte
	for _, r := range recs {
		out = append(out, r...)
	}
	return out
}

// records gives the encoding of m as a list of complete field records.
func (e *enc) records(m *MVal) [][]byte {
	per := make([][][]byte, 0, len(m.F))
	for i, f := range m.T.Fields {
		if recs := e.field(f, &m.F[i]); len(recs) > 0 {
			per = append(per, recs)
		}
	}
	var out [][]byte
	if e.o.Shuffle && e.r.Intn(4) > 0 {
		for len(per) > 0 { // random interleaving that keeps each field's order
			i := e.r.Intn(len(per))
			out = append(out, per[i][0])
			if per[i] = per[i][1:]; len(per[i]) == 0 {
				per = append(per[:i], per[i+1:]...)
			}
		}
	} else {
		for _, p := range per {
			out = append(out, p...)
		}
	}
	if e.o.Unknown > 0 {
		out = e.inject(out, func() []byte {
			if n := len(m.T.Hidden); n > 0 && e.r.Intn(2) == 0 { // what an undeclared field would take, were it declared
				f := m.T.Hidden[e.r.Intn(n)]
				if m.T.Index(f.Num) < 0 {
					t := &Msg{Name: "H", Fields: []*Field{f}}
					b := 8
					return Encode(GenM(e.r, t, &ValOpt{MaxList: 3, MaxStr: 8, Fill: 95, Budget: &b, MaxDepth: 1}))
				}
			}
			return UnknownRecord(e.r, UnknownNum(e.r, m.T))
		})
	}
	return out
}

func (e *enc) msg(m *MVal) []byte { return join(e.records(m)) }

// UnknownNum draws a field number m does not declare.
func UnknownNum(r *rand.Rand, m *Msg) int32 {
	for {
		var n int32
		if len(m.Fields) > 0 && r.Intn(3) == 0 { // next to, or congruent to, a declared number
			n = m.Fields[r.Intn(len(m.Fields))].Num
			switch r.Intn(4) {
			case 0:
				n++
			case 1:
				n--
			case 2:
				n ^= 1 << uint(r.Intn(29))
			case 3:
				n += 1 << uint(5+r.Intn(20))
			}
		} else {
			n = genNum(r)
		}
		if n < 1 || n > 536870911 || m.Index(n) >= 0 {
			continue
		}
		return n
	}
}

// entryNum draws a field number that map entries do not have.
func entryNum(r *rand.Rand) int32 {
	for {
		n := 3 + r.Int31n(2000)
		switch r.Intn(6) {
		case 0:
			n = genNum(r)
		case 1: // like a key or a value, but for one bit
			n = (1 + r.Int31n(2)) | 1<<uint(2+r.Intn(27))
		case 2:
			n = 536870911 - r.Int31n(3)
		}
		if n > 2 {
			return n
		}
	}
}

func (e *enc) inject(recs [][]byte, make func() []byte) [][]byte {
	var out [][]byte
	for i := 0; i <= len(recs); i++ {
		for e.r.Intn(100) < e.o.Unknown {
			out = append(out, make())
		}
		if e.o.Pads > 0 && e.r.Intn(3) == 0 {
			e.o.Pads--
			rec := make()
			if len(rec) > 0 && len(rec) < 16 && e.r.Intn(2) == 0 { // many records
				out = append(out, bytes.Repeat(rec, 1+e.o.Pad/len(rec)))
			} else if tag, n, prob := getVarint(rec); prob == nil && n > 0 { // one long record
				b := PutVarint(nil, tag&^7|2)
				b = PutVarint(b, uint64(e.o.Pad))
				out = append(out, append(b, bytes.Repeat([]byte{byte(e.r.Intn(256))}, e.o.Pad)...))
			}
		}
		if i < len(recs) {
			out = append(out, recs[i])
		}
	}
	return out
}

// UnknownRecord makes a well-formed record of any wire type (groups excluded).
func UnknownRecord(r *rand.Rand, num int32) []byte {
	b := PutVarint(nil, uint64(num)<<3)
	b = b[:0]
	wt := []int{0, 1, 2, 5}[r.Intn(4)]
	b = PutVarint(b, uint64(num)<<3|uint64(wt))
	switch wt {
	case 0:
		b = PutVarintN(b, GenNum(r, Uint64), []int{1, 1, 1, 2, 5, 9, 10}[r.Intn(7)])
	case 1:
		b = binary.LittleEndian.AppendUint64(b, r.Uint64())
	case 5:
		b = binary.LittleEndian.AppendUint32(b, r.Uint32())
	case 2:
		n := []int{0, 0, 1, 2, 5, 127, 128, 129, 300}[r.Intn(9)]
		if d, ok := Dict.Count(r, 12, 0, 5000); ok {
			n = d
		}
		if r.Intn(10) == 0 {
			b = PutVarintN(b, uint64(n), 1+r.Intn(5))
		} else {
			b = PutVarint(b, uint64(n))
		}
		for i := 0; i < n; i++ {
			b = append(b, byte(r.Intn(256)))
		}
	}
	return b
}

// ---- reference decoder ----

// Class classifies a malformation.
type Class int

const (
	Trunc       Class = iota + 1 // ends inside a field
	Overflow                     // varint beyond 64 bits
	TruncOrOver                  // both readings are possible
	BadWire                      // undefined wire type (6, 7)
	Mismatch                     // declared field with a wire type its kind does not allow
	Unpaired                     // group opened or closed without its counterpart
	Unspecified                  // whole groups and illegal field numbers: no verdict
)

var classNames = map[Class]string{Trunc: "truncated", Overflow: "varint overflow", TruncOrOver: "truncated or overflow",
	BadWire: "undefined wire type", Mismatch: "wire type mismatch", Unpaired: "unpaired group", Unspecified: "unspecified"}

func (c Class) String() string { return classNames[c] }

// Problem says what is wrong with an input.
type Problem struct {
	Class  Class
	HasTag bool // the outermost field's tag was read
	Num    uint64
	WT     int
	Depth  int
}

func (p *Problem) Error() string {
	return fmt.Sprintf("%v (tag read %v, field %d wire type %d, depth %d)", p.Class, p.HasTag, p.Num, p.WT, p.Depth)
}

func getVarint(b []byte) (uint64, int, *Problem) {
	var v uint64
	for i := 0; i < len(b); i++ {
		c := b[i]
		if i == 9 && c > 1 {
			if c >= 0x80 {
				// more than ten bytes: over-long, and maybe cut off as well
				for _, d := range b[i:] {
					if d < 0x80 {
						return 0, 0, &Problem{Class: Overflow}
					}
				}
				return 0, 0, &Problem{Class: TruncOrOver}
			}
			return 0, 0, &Problem{Class: Overflow}
		}
		v |= uint64(c&0x7f) << uint(7*i)
		if c < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, &Problem{Class: Trunc}
}

// Decode decodes b as a fresh message.
func Decode(t *Msg, b []byte) (*MVal, *Problem) {
	m := NewM(t)
	p := DecodeInto(m, b)
	return m, p
}

// DecodeInto decodes b into m with merge semantics.
func DecodeInto(m *MVal, b []byte) *Problem {
	for len(b) > 0 {
		tag, n, p := getVarint(b)
		if p != nil {
			return p
		}
		b = b[n:]
		num, wt := tag>>3, int(tag&7)
		n, p = decodeField(m, num, wt, b)
		if p != nil {
			if p.HasTag {
				p.Depth++
			}
			p.HasTag, p.Num, p.WT = true, num, wt
			return p
		}
		b = b[n:]
	}
	return nil
}

func decodeField(m *MVal, num uint64, wt int, b []byte) (int, *Problem) {
	if num == 0 || num > 536870911 {
		return 0, &Problem{Class: Unspecified}
	}
	i := m.T.Index(int32(num))
	var f *Field
	if i >= 0 {
		f = m.T.Fields[i]
		want := f.Kind.Wire()
		if f.Card == Map {
			want = 2
		}
		packed := f.Card == Rep && f.Kind.Packable() && wt == 2
		if wt != want && !packed {
			return 0, &Problem{Class: Mismatch}
		}
	}
	switch wt {
	case 3:
		if groupEnd(num, b) {
			return 0, &Problem{Class: Unspecified}
		}
		return 0, &Problem{Class: Unpaired}
	case 4:
		return 0, &Problem{Class: Unpaired}
	case 6, 7:
		return 0, &Problem{Class: BadWire}
	}
	u, payload, n, p := getRaw(wt, b)
	if p != nil {
		return 0, p
	}
	if f == nil {
		return n, nil
	}
	v := &m.F[i]
	switch {
	case f.Card == Map:
		e := NewM(entryType(f))
		if p := DecodeInto(e, payload); p != nil {
			return 0, p
		}
		kv := KV{e.F[0].V, e.F[1].V}
		if f.Kind == Message && kv.V.M == nil {
			kv.V.M = NewM(f.Sub)
		}
		v.putKV(f, kv)
	case f.Card == Rep && f.Kind.Packable() && wt == 2:
		for len(payload) > 0 {
			u, _, n, p := getRaw(f.Kind.Wire(), payload)
			if p != nil {
				return 0, p
			}
			payload = payload[n:]
			v.L = append(v.L, Val{U: fromWire(f.Kind, u)})
		}
	case f.Kind == Message:
		var sub *MVal
		if f.Card == Plain && v.Set {
			sub = v.V.M
		} else {
			sub = NewM(f.Sub)
		}
		if p := DecodeInto(sub, payload); p != nil {
			return 0, p
		}
		if f.Card == Rep {
			v.L = append(v.L, Val{M: sub})
		} else {
			v.Set, v.V = true, Val{M: sub}
		}
	default:
		var x Val
		if wt == 2 {
			x.S = string(payload)
		} else {
			x.U = fromWire(f.Kind, u)
		}
		if f.Card == Rep {
			v.L = append(v.L, x)
		} else {
			v.V = x
			v.Set = f.Explicit() || !x.Zero(f.Kind)
		}
	}
	return n, nil
}

var entryTypes = map[*Field]*Msg{}

func entryType(f *Field) *Msg {
	if m := entryTypes[f]; m != nil {
		return m
	}
	m := &Msg{Name: "Entry", Fields: []*Field{{Num: 1, Kind: f.Key, Card: Plain}, {Num: 2, Kind: f.Kind, Card: Plain, Sub: f.Sub}}}
	entryTypes[f] = m
	return m
}

func fromWire(k Kind, u uint64) uint64 {
	switch k {
	case Sint32:
		return Canon(k, uint64(int64(u>>1)^-int64(u&1)))
	case Sint64:
		return uint64(int64(u>>1) ^ -int64(u&1))
	}
	return Canon(k, u)
}

// groupEnd tells whether b goes on with well-formed fields up to the end of group num.
func groupEnd(num uint64, b []byte) bool {
	open := []uint64{num}
	for len(open) > 0 {
		tag, n, p := getVarint(b)
		if p != nil {
			return false
		}
		b = b[n:]
		switch wt := int(tag & 7); wt {
		case 3:
			open = append(open, tag>>3)
		case 4:
			if tag>>3 != open[len(open)-1] {
				return false
			}
			open = open[:len(open)-1]
		case 6, 7:
			return false
		default:
			_, _, n, p := getRaw(wt, b)
			if p != nil {
				return false
			}
			b = b[n:]
		}
	}
	return true
}

func getRaw(wt int, b []byte) (u uint64, payload []byte, n int, p *Problem) {
	switch wt {
	case 0:
		u, n, p = getVarint(b)
	case 1:
		if len(b) < 8 {
			return 0, nil, 0, &Problem{Class: Trunc}
		}
		return binary.LittleEndian.Uint64(b), nil, 8, nil
	case 5:
		if len(b) < 4 {
			return 0, nil, 0, &Problem{Class: Trunc}
		}
		return uint64(binary.LittleEndian.Uint32(b)), nil, 4, nil
	case 2:
		u, n, p = getVarint(b)
		if p != nil {
			return
		}
		if u > uint64(len(b)-n) {
			return 0, nil, 0, &Problem{Class: Trunc}
		}
		payload = b[n : n+int(u)]
		n += int(u)
	}
	return
}

// ---- wire tokens ----

// Tok is a top-level record.
type Tok struct {
	Num   int32
	WT    int
	U     uint64
	Data  []byte
	Start int
	End   int
}

// RawNumber reads one number of wire type wt; n is 0 when there is none.
func RawNumber(wt int, b []byte) (u uint64, n int) {
	u, _, n, p := getRaw(wt, b)
	if p != nil {
		return 0, 0
	}
	return u, n
}

// Tokens splits b into top-level records; ok is false if it is not well formed.
func Tokens(b []byte) (toks []Tok, ok bool) {
	off := 0
	for off < len(b) {
		tag, n, p := getVarint(b[off:])
		if p != nil || tag>>3 == 0 || tag>>3 > 536870911 {
			return toks, false
		}
		t := Tok{Num: int32(tag >> 3), WT: int(tag & 7), Start: off}
		switch t.WT {
		case 0, 1, 2, 5:
		default:
			return toks, false
		}
		off += n
		u, d, n, p := getRaw(t.WT, b[off:])
		if p != nil {
			return toks, false
		}
		off += n
		t.U, t.Data, t.End = u, d, off
		toks = append(toks, t)
	}
	return toks, true
}
