package vf

import (
	"encoding/binary"
	"math"
	"math/rand"
)

// HostileLen draws a length that is meant to upset bounds arithmetic.
func HostileLen(r *rand.Rand, have int) uint64 {
	base := []uint64{uint64(have), math.MaxInt32, 1 << 31, math.MaxUint32, 1 << 32, math.MaxInt64, 1 << 63, math.MaxUint64, 1 << 20, 1 << 24, 1 << 40, 1 << 62}
	if r.Intn(4) == 0 { // looks right when cut to 32 or 31 bits
		return uint64(r.Intn(have+1)) + (1+uint64(r.Intn(4)))<<uint(31+r.Intn(3))
	}
	u := base[r.Intn(len(base))]
	if d, ok := Dict.Int(r, 6, 0, math.MaxUint64); ok {
		u = d
	}
	switch r.Intn(3) {
	case 0:
		u += uint64(r.Intn(5))
	case 1:
		u -= uint64(r.Intn(2*have + 20))
	}
	return u
}

// Mutate damages bytes at random.
func Mutate(r *rand.Rand, b, other []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + r.Intn(4); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, byte(r.Intn(256)))
			continue
		}
		i := r.Intn(len(b))
		j := i + r.Intn(len(b)-i+1)
		switch r.Intn(11) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b[i] = []byte{0, 1, 0x7f, 0x80, 0xff}[r.Intn(5)]
		case 3:
			b = append(b[:i], b[j:]...)
		case 4:
			b = append(b[:j:j], b[i:]...)
		case 5:
			ins := make([]byte, 1+r.Intn(6))
			r.Read(ins)
			b = append(b[:i:i], append(ins, b[i:]...)...)
		case 6:
			ins := PutVarint(nil, HostileLen(r, len(b)-i))
			b = append(b[:i:i], append(ins, b[i:]...)...)
		case 7:
			ins := PutVarint(nil, HostileLen(r, len(b)-i))
			b = append(b[:i:i], append(ins, b[i+1:]...)...)
		case 8:
			b = b[:i]
		case 9:
			if len(other) > 0 {
				k := r.Intn(len(other))
				b = append(b[:i:i], other[k:]...)
			}
		case 10:
			for k := i; k < j && k < i+12; k++ {
				b[k] = 0xff
			}
		}
	}
	return b
}

// HostileRecord makes a record for a declared (or any) field with a claim that does
// not match what follows.
func HostileRecord(r *rand.Rand, t *Msg) []byte {
	num := int32(1 + r.Intn(20))
	var f *Field
	if len(t.Fields) > 0 && r.Intn(8) > 0 {
		f = t.Fields[r.Intn(len(t.Fields))]
		num = f.Num
	}
	wt := []int{0, 1, 2, 2, 2, 2, 5, 3, 4, 6, 7}[r.Intn(11)]
	if f != nil && r.Intn(3) > 0 {
		if wt = f.Kind.Wire(); f.Card == Map {
			wt = 2
		}
	}
	b := PutVarint(nil, uint64(num)<<3|uint64(wt))
	switch wt {
	case 0:
		n := []int{1, 9, 10, 11, 12, 20}[r.Intn(6)]
		for i := 0; i < n-1; i++ {
			b = append(b, 0x80|byte(r.Intn(128)))
		}
		b = append(b, byte(r.Intn(256)))
	case 1, 5:
		x := make([]byte, r.Intn(10))
		r.Read(x)
		b = append(b, x...)
	case 2:
		var inner []byte
		if f != nil && (f.Kind == Message || f.Card == Map) && r.Intn(3) > 0 {
			sub := f.Sub
			if f.Card == Map {
				sub = entryType(f)
			}
			inner = HostileRecord(r, sub)
		} else {
			inner = make([]byte, r.Intn(12))
			r.Read(inner)
		}
		if r.Intn(3) > 0 {
			b = PutVarint(b, HostileLen(r, len(inner)))
		} else {
			b = PutVarint(b, uint64(len(inner)))
		}
		b = append(b, inner...)
	}
	return b
}

// WideTag puts a record with an illegal field number, equal to a declared one in its
// low 29, 32 or more bits, among the top-level records of b. What a decoder makes of
// it is not specified; it must be the same everywhere.
func WideTag(r *rand.Rand, t *Msg, b []byte) []byte {
	toks, ok := Tokens(b)
	at := 0
	if ok && len(toks) > 0 {
		at = toks[r.Intn(len(toks))].Start
	}
	num, wt := int32(1+r.Intn(20)), []int{0, 1, 2, 5}[r.Intn(4)]
	if len(t.Fields) > 0 {
		f := t.Fields[r.Intn(len(t.Fields))]
		if num = f.Num; r.Intn(4) > 0 {
			if wt = f.Kind.Wire(); f.Card == Map {
				wt = 2
			}
		}
	}
	wide := uint64(num) | (1+uint64(r.Intn(200)))<<[]int{29, 31, 32, 32, 32, 40, 53}[r.Intn(7)]
	rec := PutVarint(nil, wide<<3|uint64(wt))
	switch wt {
	case 0:
		rec = append(rec, byte(1+r.Intn(100)))
	case 1:
		rec = binary.LittleEndian.AppendUint64(rec, r.Uint64())
	case 2:
		rec = append(rec, 0)
	case 5:
		rec = binary.LittleEndian.AppendUint32(rec, r.Uint32())
	}
	return append(append(append([]byte(nil), b[:at]...), rec...), b[at:]...)
}

// Malform breaks one thing at some nesting level of a valid encoding, keeping all
// the lengths outside it consistent. what names the kind of damage.
func Malform(r *rand.Rand, t *Msg, b []byte) (out []byte, what string) {
	toks, ok := Tokens(b)
	if !ok || len(toks) == 0 {
		return append(append([]byte(nil), b...), badRecord(r, t, &what)...), what
	}
	i := r.Intn(len(toks))
	// descend when possible
	if r.Intn(3) > 0 {
		for n := 0; n < 3; n++ {
			k := toks[r.Intn(len(toks))]
			j := t.Index(k.Num)
			if j < 0 || k.WT != 2 {
				continue
			}
			f := t.Fields[j]
			var inner []byte
			switch {
			case f.Card == Map:
				inner, what = Malform(r, entryType(f), k.Data)
				what = "in map entry: " + what
			case f.Kind == Message:
				inner, what = Malform(r, f.Sub, k.Data)
				what = "nested: " + what
			case f.Card == Rep && f.Kind.Packable():
				inner = append([]byte(nil), k.Data...)
				switch {
				case len(inner) > 0 && r.Intn(2) == 0:
					inner = inner[:len(inner)-1]
				default:
					inner = append(inner, 0x80)
				}
				what = "packed list cut"
			default:
				continue
			}
			out = append(out, b[:k.Start]...)
			out = PutVarint(out, uint64(k.Num)<<3|2)
			out = PutVarint(out, uint64(len(inner)))
			out = append(out, inner...)
			return append(out, b[k.End:]...), what
		}
	}
	k := toks[i]
	head := b[:k.Start]
	rest := b[k.End:]
	tag := func(wt int) []byte { return PutVarint(nil, uint64(k.Num)<<3|uint64(wt)) }
	cat := func(mid ...[]byte) []byte {
		o := append([]byte(nil), head...)
		for _, m := range mid {
			o = append(o, m...)
		}
		return append(o, rest...)
	}
	switch c := r.Intn(10); {
	case c == 9: // half a group, before, after or instead of this record
		g := halfGroup(r, t)
		switch r.Intn(4) {
		case 0:
			return cat(g), "half a group"
		case 1:
			return cat(g, b[k.Start:k.End]), "half a group"
		case 2:
			return append(append([]byte(nil), b...), g...), "half a group"
		default:
			return cat(b[k.Start:k.End], g), "half a group"
		}
	case c == 0: // cut inside this record and drop the rest
		n := k.Start
		if k.End-k.Start > 1 {
			n += 1 + r.Intn(k.End-k.Start-1)
		}
		return append([]byte(nil), b[:n]...), "cut"
	case c == 1: // wrong wire type, well-formed payload
		wt := []int{0, 1, 2, 5}[r.Intn(4)]
		var pl []byte
		switch wt {
		case 0:
			pl = PutVarint(nil, r.Uint64()>>uint(r.Intn(64)))
		case 1:
			pl = make([]byte, 8)
		case 2:
			pl = []byte{3, 8, 1, 0}
		case 5:
			pl = make([]byte, 4)
		}
		return cat(tag(wt), pl), "other wire type"
	case c == 2:
		return cat(tag(6+r.Intn(2)), []byte{0}), "undefined wire type"
	case c == 3: // over-long varint for the tag, the length or the value
		return cat(overTag(r, k), payloadOf(k)), "over-long tag"
	case k.WT == 2 && c <= 6: // wrong length
		d := uint64(len(k.Data))
		if r.Intn(3) == 0 {
			d = HostileLen(r, len(rest)+len(k.Data))
			if r.Intn(3) == 0 {
				d = uint64(len(k.Data)) + (1+uint64(r.Intn(4)))<<uint(31+r.Intn(3))
			}
		} else if r.Intn(2) == 0 {
			d += uint64(1 + r.Intn(len(rest)+3))
		} else {
			d += uint64(len(rest)) + uint64(1+r.Intn(300))
		}
		return cat(tag(2), PutVarint(nil, d), k.Data), "enlarged length"
	case k.WT == 2 && c == 7 && len(k.Data) > 0:
		return cat(tag(2), PutVarint(nil, uint64(r.Intn(len(k.Data)))), k.Data), "shrunk length"
	case k.WT == 2:
		return cat(tag(2), overVarint(r), k.Data), "over-long length"
	case k.WT == 0:
		return cat(tag(0), overVarint(r)), "over-long varint"
	default: // fixed width cut in the middle of the message
		return cat(tag(k.WT), payloadOf(k)[:r.Intn(4)]), "fixed width cut"
	}
}

func payloadOf(k Tok) []byte {
	switch k.WT {
	case 0:
		return PutVarint(nil, k.U)
	case 1:
		return binary.LittleEndian.AppendUint64(nil, k.U)
	case 5:
		return binary.LittleEndian.AppendUint32(nil, uint32(k.U))
	}
	return append(PutVarint(nil, uint64(len(k.Data))), k.Data...)
}

func overVarint(r *rand.Rand) []byte {
	var b []byte
	switch r.Intn(3) {
	case 0: // ten bytes, too much in the last
		for i := 0; i < 9; i++ {
			b = append(b, 0x80|byte(r.Intn(128)))
		}
		return append(b, byte(2+r.Intn(126)))
	case 1: // eleven and more
		for i := 0; i < 10+r.Intn(8); i++ {
			b = append(b, 0x80|byte(r.Intn(128)))
		}
		return append(b, byte(r.Intn(128)))
	default: // eleven bytes of zero: still more than 64 bits long
		for i := 0; i < 10; i++ {
			b = append(b, 0x80)
		}
		return append(b, byte(r.Intn(2)))
	}
}

func overTag(r *rand.Rand, k Tok) []byte {
	if r.Intn(2) == 0 {
		return overVarint(r)
	}
	b := PutVarintN(nil, uint64(k.Num)<<3|uint64(k.WT), 10)
	b[9] |= 0x80
	return append(b, byte(r.Intn(2)))
}

func badRecord(r *rand.Rand, t *Msg, what *string) []byte {
	num := UnknownNum(r, t)
	if len(t.Fields) > 0 && r.Intn(2) == 0 {
		num = t.Fields[r.Intn(len(t.Fields))].Num
	}
	switch r.Intn(5) {
	case 4:
		*what = "half a group"
		return halfGroup(r, t)
	case 0:
		*what = "undefined wire type"
		return PutVarint(nil, uint64(num)<<3|uint64(6+r.Intn(2)))
	case 1:
		*what = "cut"
		return append(PutVarint(nil, uint64(num)<<3|2), 5, 'a', 'b')
	case 2:
		*what = "over-long varint"
		return append(PutVarint(nil, uint64(num)<<3), overVarint(r)...)
	}
	*what = "cut"
	return PutVarint(nil, uint64(num)<<3|[]uint64{0, 1, 2, 5}[r.Intn(4)])
}

// halfGroup makes a group that is not opened, not closed, or closed with another number.
func halfGroup(r *rand.Rand, t *Msg) []byte {
	num := UnknownNum(r, t)
	if len(t.Fields) > 0 && r.Intn(4) == 0 {
		num = t.Fields[r.Intn(len(t.Fields))].Num
	}
	open, end := uint64(num)<<3|3, uint64(num)<<3|4
	switch r.Intn(4) {
	case 0:
		return PutVarint(nil, open)
	case 1:
		return append(PutVarint(nil, open), PutVarint(nil, end+8)...)
	case 2:
		return append(PutVarint(PutVarint(nil, open), end), PutVarint(nil, end)...)
	}
	return PutVarint(nil, end)
}
