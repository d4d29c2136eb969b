package main

import (
	"encoding/hex"
	"math"
	"reflect"
	"strings"

	"verif/vf"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	props["C01"] = prop{run: c01}
	props["C02"] = prop{run: c02}
	props["C03"] = prop{run: c03}
	props["C04"] = prop{run: c04}
	props["C05"] = prop{run: c05}
	props["C13"] = prop{run: c13}
}

const perType = 6

func hx(b []byte) string {
	if len(b) > 1500 {
		return hex.EncodeToString(b[:1500]) + "..."
	}
	return hex.EncodeToString(b)
}

// C01: round trip.
func c01(c *Ctx) {
	t := c.normalType()
	for i := 0; i < perType; i++ {
		v := c.bigValue(t)
		p := c.build(v)
		c.Trace("value %v", v)
		b := vf.MustMarshal(p.Interface())
		c.Trace("bytes %s", hx(b))
		q := vf.New(t)
		if err := vf.Unmarshal(b, q.Interface()); err != nil {
			c.Fail("decoding what was encoded failed: %v", err)
		}
		got := vf.Read(t, q)
		if d := vf.Diff(v, got); d != "" {
			c.Fail("round trip changed the message: %s", d)
		}
		c.Eval()
		// the decoded message round-trips too
		b2 := vf.MustMarshal(q.Interface())
		q2 := vf.New(t)
		if err := vf.Unmarshal(b2, q2.Interface()); err != nil {
			c.Fail("second round trip failed: %v (bytes %s)", err, hx(b2))
		}
		if d := vf.Diff(v, vf.Read(t, q2)); d != "" {
			c.Fail("second round trip changed the message: %s", d)
		}
		c.Eval()
		if !v.Empty() {
			c.Nontrivial(t.String(), v.String())
		}
		c.Sample("%v %v -> %s", t, v, hx(b))
		c.trace = c.trace[:1]
	}
}

// C02: size.
func c02(c *Ctx) {
	t := c.normalType()
	for i := 0; i < perType; i++ {
		var v *vf.MVal
		if i == 0 && c.Chance(30) {
			v = c.widthValue(t)
		} else {
			v = c.bigValue(t)
		}
		p := c.build(v)
		c.Trace("value %v", v)
		sizeCheck(c, v, p)
		if !v.Empty() {
			c.Nontrivial(t.String(), v.String())
		}
		c.Sample("%v %v", t, v)
		c.trace = c.trace[:1]
	}
}

func sizeCheck(c *Ctx, v *vf.MVal, p reflect.Value) {
	t := v.T
	n := vf.Size(p.Interface())
	b := vf.MustMarshal(p.Interface())
	c.Trace("size %d bytes %s", n, hx(b))
	if n != len(b) {
		c.Fail("Size is %d but the encoding has %d bytes", n, len(b))
	}
	if n2 := vf.Size(p.Interface()); n2 != n {
		c.Fail("Size changed from %d to %d", n, n2)
	}
	c.Eval()
	c.Cover(lenBucket(n))
	// every prefix delimits exactly one value: a strict parse recovers the message
	got, prob := vf.Decode(t, b)
	if prob != nil {
		c.Fail("a length prefix or record is wrong: %v", prob)
	}
	if d := vf.Diff(v, got); d != "" {
		c.Fail("lengths in the encoding delimit other values: %s", d)
	}
	c.Eval()
	// nested messages: prefix equals the size reported for that message
	toks, ok := vf.Tokens(b)
	if !ok {
		c.Fail("encoding is not a sequence of records")
	}
	next := map[int32]int{}
	for _, k := range toks {
		i := t.Index(k.Num)
		if i < 0 {
			continue
		}
		f := t.Fields[i]
		if f.Kind != vf.Message || f.Card == vf.Map {
			continue
		}
		src := p.Elem().Field(f.GoIndex)
		if f.Card == vf.Rep {
			j := next[k.Num]
			next[k.Num]++
			if j >= src.Len() {
				c.Fail("field %d has more records than list elements", k.Num)
			}
			src = src.Index(j)
		}
		if src.IsNil() {
			continue
		}
		if m := vf.Size(src.Interface()); m != len(k.Data) {
			c.Fail("nested message in field %d: prefix says %d, Size says %d", k.Num, len(k.Data), m)
		}
		c.Eval()
	}
}

func lenBucket(n int) string {
	switch {
	case n == 0:
		return "size:0"
	case n < 128:
		return "size:<2^7"
	case n < 16384:
		return "size:<2^14"
	case n < 1<<21:
		return "size:<2^21"
	case n < 1<<28:
		return "size:<2^28"
	}
	return "size:>=2^28"
}

// widthValue makes some length land next to a varint width boundary: a string, bytes,
// nested message or map entry.
func (c *Ctx) widthValue(t *vf.Msg) *vf.MVal {
	v := c.value(t)
	want := []int{127, 128, 16383, 16384}[c.R.Intn(4)]
	if c.Chance(8) {
		want = []int{1<<21 - 1, 1 << 21}[c.R.Intn(2)]
	}
	if c.Tier == "thorough" && c.Chance(1) && c.Chance(4) {
		want = []int{1<<28 - 1, 1 << 28}[c.R.Intn(2)]
	}
	want += c.R.Intn(9) - 6
	// find a string or bytes holder, preferably nested
	type holder struct {
		v *vf.Val
		f *vf.FVal
	}
	var holders []holder
	var walk func(m *vf.MVal)
	walk = func(m *vf.MVal) {
		for i, f := range m.T.Fields {
			x := &m.F[i]
			if f.Kind == vf.Message {
				if x.V.M != nil {
					walk(x.V.M)
				}
				for j := range x.L {
					walk(x.L[j].M)
				}
				for j := range x.KV {
					walk(x.KV[j].V.M)
				}
				continue
			}
			if f.Kind != vf.String && f.Kind != vf.Bytes {
				continue
			}
			switch f.Card {
			case vf.Rep:
				for j := range x.L {
					holders = append(holders, holder{&x.L[j], x})
				}
			case vf.Map:
				for j := range x.KV {
					holders = append(holders, holder{&x.KV[j].V, x})
				}
			default:
				holders = append(holders, holder{&x.V, x})
			}
		}
	}
	walk(v)
	if len(holders) > 0 {
		h := holders[len(holders)-1-c.R.Intn((len(holders)+1)/2)]
		h.v.S = strings.Repeat("w", want)
		h.f.Set = true
		c.Cover("value:varint width boundary")
	}
	return v
}

// C03: the encoding read by the official implementation.
func c03(c *Ctx) {
	t := c.normalType()
	off, err := vf.NewOfficial(t)
	if err != nil {
		harness("descriptor: %v", err)
	}
	for i := 0; i < perType; i++ {
		v := c.bigValue(t)
		p := c.build(v)
		c.Trace("value %v", v)
		b := vf.MustMarshal(p.Interface())
		c.Trace("bytes %s", hx(b))
		conform(c, t, off, v, b)
		if !v.Empty() {
			c.Nontrivial(t.String(), v.String())
		}
		c.Sample("%v %v -> %s", t, v, hx(b))
		c.trace = c.trace[:1]
	}
}

func conform(c *Ctx, t *vf.Msg, off *vf.Official, v *vf.MVal, b []byte) {
	got, unknown, err := off.Decode(b)
	if err != nil {
		c.Fail("the official decoder rejects the encoding: %v", err)
	}
	if unknown != 0 {
		c.Fail("the official decoder does not recognise %d bytes of the encoding", unknown)
	}
	if d := vf.Diff(v, got); d != "" {
		c.Fail("the official decoder reads another value: %s", d)
	}
	c.Eval()
	strict(c, t, v, b)
}

// strict walks the encoding record by record: declared fields only, declared wire
// types only, nothing twice, entries with one key and one value.
func strict(c *Ctx, t *vf.Msg, v *vf.MVal, b []byte) {
	toks, ok := vf.Tokens(b)
	if !ok {
		c.Fail("encoding of %s is not a sequence of records: %s", t.Name, hx(b))
	}
	count := map[int32]int{}
	elems := map[int32]int{}
	for _, k := range toks {
		i := t.Index(k.Num)
		if i < 0 {
			c.Fail("encoding of %s holds field %d which is not declared", t.Name, k.Num)
		}
		f := t.Fields[i]
		want := f.Kind.Wire()
		if f.Card == vf.Map {
			want = 2
		}
		packed := f.Card == vf.Rep && f.Kind.Packable() && k.WT == 2
		if k.WT != want && !packed {
			c.Fail("field %d of %s has wire type %d, want %d", k.Num, t.Name, k.WT, want)
		}
		count[k.Num]++
		if f.Card == vf.Map {
			et, ok := vf.Tokens(k.Data)
			if !ok {
				c.Fail("map entry of field %d is not a sequence of records: %s", k.Num, hx(k.Data))
			}
			nk, nv := 0, 0
			for _, x := range et {
				switch x.Num {
				case 1:
					nk++
					if x.WT != f.Key.Wire() {
						c.Fail("map key of field %d has wire type %d", k.Num, x.WT)
					}
					strictNum(c, f.Key, x.U, "map key of", k.Num)
				case 2:
					nv++
					if x.WT != f.Kind.Wire() {
						c.Fail("map value of field %d has wire type %d", k.Num, x.WT)
					}
					if f.Kind == vf.Message {
						strict(c, f.Sub, nil, x.Data)
					} else {
						strictNum(c, f.Kind, x.U, "map value of", k.Num)
					}
				default:
					c.Fail("map entry of field %d holds field %d", k.Num, x.Num)
				}
			}
			if nk > 1 || nv > 1 {
				c.Fail("map entry of field %d has %d keys and %d values", k.Num, nk, nv)
			}
		}
		switch {
		case f.Card == vf.Map:
		case packed:
			for p := k.Data; len(p) > 0; {
				u, n := vf.RawNumber(f.Kind.Wire(), p)
				if n == 0 {
					c.Fail("packed list %d of %s does not hold whole elements", k.Num, t.Name)
				}
				strictNum(c, f.Kind, u, "element of", k.Num)
				p = p[n:]
			}
		default:
			strictNum(c, f.Kind, k.U, "value of", k.Num)
		}
		if f.Kind == vf.Message && f.Card != vf.Map && v == nil {
			strict(c, f.Sub, nil, k.Data)
		} else if f.Kind == vf.Message && f.Card != vf.Map {
			x := &v.F[i]
			var sub *vf.MVal
			if f.Card == vf.Rep {
				if elems[k.Num] >= len(x.L) {
					c.Fail("field %d has more records than the list has elements", k.Num)
				}
				sub = x.L[elems[k.Num]].M
				elems[k.Num]++
			} else {
				sub = x.V.M
			}
			if sub == nil {
				c.Fail("field %d is on the wire but not in the message", k.Num)
			}
			strict(c, f.Sub, sub, k.Data)
		}
	}
	for i, f := range t.Fields {
		n := count[f.Num]
		switch f.Card {
		case vf.Map:
			if v != nil && n != len(v.F[i].KV) {
				c.Fail("map field %d of %s has %d entries but %d records", f.Num, t.Name, len(v.F[i].KV), n)
			}
		case vf.Rep:
		default:
			if n > 1 {
				c.Fail("singular field %d of %s encoded %d times", f.Num, t.Name, n)
			}
		}
	}
	c.Eval()
}

// strictNum checks that a number on the wire is within its kind: 32-bit integers and enums are sent sign-extended to 64
// bits, so that a reader with a wider field sees the same number.
func strictNum(c *Ctx, k vf.Kind, u uint64, what string, num int32) {
	ok := true
	switch k {
	case vf.Bool:
		ok = u <= 1
	case vf.Int32:
		ok = u == uint64(int64(int32(u)))
	case vf.Uint32, vf.Sint32:
		ok = u <= math.MaxUint32
	}
	if !ok {
		c.Fail("%s field %d of kind %v is sent as %#x", what, num, k, u)
	}
}

// C04: every legal encoding.
func c04(c *Ctx) {
	t := c.normalType()
	off, err := vf.NewOfficial(t)
	if err != nil {
		harness("descriptor: %v", err)
	}
	for i := 0; i < perType; i++ {
		v := c.bigValue(t)
		c.Trace("value %v", v)
		o := &vf.EncOpt{}
		switch c.R.Intn(4) {
		case 0:
			o = vf.AllForms()
			c.Cover("form:all")
		case 1: // one freedom at a time
			switch c.R.Intn(6) {
			case 0:
				o.Shuffle = true
				c.Cover("form:shuffle")
			case 1:
				o.Packed = true
				c.Cover("form:packed")
			case 2:
				o.LongVar = true
				c.Cover("form:long varints")
			case 3:
				o.Wide = true
				c.Cover("form:wide values")
			case 4:
				o.Repeat = true
				c.Cover("form:repeats")
			case 5:
				o.MapForms = true
				c.Cover("form:map entries")
			}
		default:
			o = &vf.EncOpt{Shuffle: c.Chance(50), Packed: c.Chance(50), LongVar: c.Chance(50), Wide: c.Chance(50), Repeat: c.Chance(50), MapForms: c.Chance(50)}
			c.Cover("form:mixed")
		}
		var b []byte
		if c.Chance(15) {
			if b, err = off.Encode(v); err != nil {
				harness("official encode: %v", err)
			}
			c.Cover("form:official encoder")
		} else {
			b = vf.EncodeVariant(c.R, v, o)
		}
		c.Trace("bytes %s", hx(b))
		if ref, prob := vf.Decode(t, b); prob != nil || vf.Diff(v, ref) != "" {
			harness("reference decoder disagrees with the variant encoder: %v %s", prob, vf.Diff(v, ref))
		}
		if ov, _, err := off.Decode(b); err != nil || vf.Diff(v, ov) != "" {
			d := ""
			if err == nil {
				d = vf.Diff(v, ov)
			}
			harness("official decoder disagrees with the variant encoder: %v %s", err, d)
		}
		q := vf.New(t)
		if err := vf.Unmarshal(b, q.Interface()); err != nil {
			c.Fail("a legal encoding is rejected: %v", err)
		}
		if d := vf.Diff(v, vf.Read(t, q)); d != "" {
			c.Fail("a legal encoding is decoded to another value: %s", d)
		}
		c.Eval()
		if !v.Empty() {
			c.Nontrivial(t.String(), b)
		}
		c.Sample("%v %s = %v", t, hx(b), v)
		c.trace = c.trace[:1]
	}
}

// C05: unknown fields.
func c05(c *Ctx) {
	t := c.normalType()
	for i := 0; i < perType; i++ {
		v := c.bigValue(t)
		c.Trace("value %v", v)
		if c.Chance(60) {
			o := &vf.EncOpt{Unknown: []int{3, 15, 40}[c.R.Intn(3)], Shuffle: c.Chance(50), LongVar: c.Chance(20), Packed: c.Chance(20), MapForms: c.Chance(30), Repeat: c.Chance(20)}
			b := vf.EncodeVariant(c.R, v, c.pads(o))
			c.Trace("bytes with unknown fields %s", hx(b))
			ref, prob := vf.Decode(t, b)
			if prob != nil || vf.Diff(v, ref) != "" {
				harness("reference decoder disagrees: %v %s", prob, vf.Diff(v, ref))
			}
			q := vf.New(t)
			if err := vf.Unmarshal(b, q.Interface()); err != nil {
				c.Fail("unknown fields make decoding fail: %v", err)
			}
			if d := vf.Diff(v, vf.Read(t, q)); d != "" {
				c.Fail("unknown fields disturb the message: %s", d)
			}
			c.Cover("mode:injected")
			c.Nontrivial(t.String(), b)
			c.Sample("%v %s = %v", t, hx(b), v)
		} else {
			// the reader has an older schema
			drop := map[[2]any]bool{}
			old := vf.Subset(c.R, t, drop)
			c.Trace("reader %v", old)
			p := c.build(v)
			b := vf.MustMarshal(p.Interface())
			c.Trace("bytes %s", hx(b))
			want := vf.Project(v, old)
			q := vf.New(old)
			if err := vf.Unmarshal(b, q.Interface()); err != nil {
				c.Fail("the older reader fails: %v", err)
			}
			if d := vf.Diff(want, vf.Read(old, q)); d != "" {
				c.Fail("the older reader sees other values: %s", d)
			}
			c.Eval()
			// and the newer reader gets what the older writer knew
			b2 := vf.MustMarshal(q.Interface())
			n := vf.New(t)
			if err := vf.Unmarshal(b2, n.Interface()); err != nil {
				c.Fail("the newer reader fails: %v (bytes %s)", err, hx(b2))
			}
			got := vf.Read(t, n)
			if d := vf.Diff(want, vf.Project(got, old)); d != "" {
				c.Fail("the newer reader sees other values: %s", d)
			}
			c.Cover("mode:schema evolution")
			c.Nontrivial(t.String(), old.String(), v.String())
		}
		c.Eval()
		c.trace = c.trace[:1]
	}
}

// C13: presence.
func c13(c *Ctx) {
	t := c.normalType()
	for i := 0; i < perType; i++ {
		o := vf.DefaultVal(c.R)
		v := vf.GenM(c.R, t, o)
		zeroSome(c, v)
		p := c.build(v)
		c.Trace("value %v", v)
		b := vf.MustMarshal(p.Interface())
		c.Trace("bytes %s", hx(b))
		presence(c, t, v, b)
		// set-ness after decoding, from our bytes so that the encoder cannot mask it
		rb := vf.EncodeVariant(c.R, v, &vf.EncOpt{Shuffle: c.Chance(70), LongVar: c.Chance(60), Wide: c.Chance(30), Repeat: c.Chance(30),
			Packed: c.Chance(40), MapForms: c.Chance(40)})
		if ref, prob := vf.Decode(t, rb); prob != nil || vf.Diff(v, ref) != "" {
			harness("reference decoder disagrees with the variant encoder: %v %s", prob, vf.Diff(v, ref))
		}
		for _, x := range [][]byte{rb, b} {
			q := vf.New(t)
			if err := vf.Unmarshal(x, q.Interface()); err != nil {
				c.Fail("decoding failed: %v (bytes %s)", err, hx(x))
			}
			if d := vf.Diff(v, vf.Read(t, q)); d != "" {
				c.Fail("presence or value differs after decoding: %s", d)
			}
			optionAPI(c, t, v, q)
			c.Eval()
		}
		gaps(c, t, v)
		if !v.Empty() {
			c.Nontrivial(t.String(), v.String())
		}
		c.Sample("%v %v -> %s", t, v, hx(b))
		c.trace = c.trace[:1]
	}
}

// gaps encodes a message in whose lists and maps some empty messages are nil: they are
// elements and values all the same.
func gaps(c *Ctx, t *vf.Msg, v *vf.MVal) {
	p := v.ToGo()
	if vf.Gaps(c.R, t, p) == 0 {
		return
	}
	b := vf.MustMarshal(p.Interface())
	got, prob := vf.Decode(t, b)
	if prob != nil {
		c.Fail("a message with nil messages in lists or maps encodes to garbage: %v (%s)", prob, hx(b))
	}
	if d := vf.Diff(v, got); d != "" {
		c.Fail("with nil for some empty messages in lists and maps, the encoding holds another value: %s (%s)", d, hx(b))
	}
	if n := vf.Size(p.Interface()); n != len(b) {
		c.Fail("with nil messages in lists or maps, Size is %d but the encoding has %d bytes (%s)", n, len(b), hx(b))
	}
	q := vf.New(t)
	if err := vf.Unmarshal(b, q.Interface()); err != nil {
		c.Fail("decoding a message with nil messages in lists or maps failed: %v (%s)", err, hx(b))
	}
	if d := vf.Diff(v, vf.Read(t, q)); d != "" {
		c.Fail("a message with nil messages in lists or maps comes back otherwise: %s (%s)", d, hx(b))
	}
	c.Eval()
	c.Cover("value:nil messages in lists and maps")
}

// zeroSome replaces values by zero (keeping them set) or unsets them.
func zeroSome(c *Ctx, m *vf.MVal) {
	for i, f := range m.T.Fields {
		x := &m.F[i]
		zero := func(v *vf.Val) {
			if f.Kind == vf.Message {
				if v.M != nil {
					if c.Chance(15) {
						v.M = vf.NewM(f.Sub)
					} else {
						zeroSome(c, v.M)
					}
				}
				return
			}
			switch {
			case c.Chance(35):
				*v = vf.Val{}
			case f.Kind == vf.Float && c.Chance(15):
				v.U = 0x80000000
			case f.Kind == vf.Double && c.Chance(15):
				v.U = 1 << 63
			}
		}
		switch f.Card {
		case vf.Rep:
			for j := range x.L {
				zero(&x.L[j])
			}
		case vf.Map:
			for j := range x.KV {
				zero(&x.KV[j].V)
			}
		default:
			if !x.Set && f.Explicit() && f.Kind != vf.Message && c.Chance(40) {
				x.Set = true
			}
			if x.Set || !f.Explicit() {
				zero(&x.V)
			}
			if !f.Explicit() {
				x.Set = !x.V.Zero(f.Kind)
			}
			if x.Set && f.Explicit() {
				c.Cover("presence:set")
				if x.V.Zero(f.Kind) {
					c.Cover("presence:set to zero")
				}
			} else {
				c.Cover("presence:unset")
			}
		}
	}
}

// presence compares the records of the encoding with the presence of the value.
func presence(c *Ctx, t *vf.Msg, v *vf.MVal, b []byte) {
	toks, ok := vf.Tokens(b)
	if !ok {
		c.Fail("encoding is not a sequence of records")
	}
	by := map[int32][]vf.Tok{}
	for _, k := range toks {
		by[k.Num] = append(by[k.Num], k)
	}
	for i, f := range t.Fields {
		x := &v.F[i]
		ks := by[f.Num]
		switch f.Card {
		case vf.Rep:
			n := 0
			for _, k := range ks {
				if f.Kind.Packable() && k.WT == 2 {
					n += countPacked(f.Kind, k.Data)
				} else {
					n++
				}
			}
			if n != len(x.L) {
				c.Fail("list field %d of %s has %d elements but %d are encoded", f.Num, t.Name, len(x.L), n)
			}
			if f.Kind == vf.Message {
				for j, k := range ks {
					presence(c, f.Sub, x.L[j].M, k.Data)
				}
			}
		case vf.Map:
			if len(ks) != len(x.KV) {
				c.Fail("map field %d of %s has %d entries but %d are encoded", f.Num, t.Name, len(x.KV), len(ks))
			}
			for _, k := range ks {
				et, _ := vf.Tokens(k.Data)
				var has [3]int
				for _, e := range et {
					if e.Num <= 2 {
						has[e.Num]++
					}
				}
				if has[1] != 1 || has[2] != 1 {
					c.Fail("entry of map field %d of %s is encoded with %d keys and %d values", f.Num, t.Name, has[1], has[2])
				}
			}
		default:
			want := 0
			if x.Set {
				want = 1
			}
			if len(ks) != want {
				c.Fail("field %d (%s) of %s with value %v is encoded %d times, want %d", f.Num, f.Shape(), t.Name, v, len(ks), want)
			}
			if f.Kind == vf.Message && want == 1 {
				presence(c, f.Sub, x.V.M, ks[0].Data)
			}
		}
		c.out.Evals++
	}
}

func countPacked(k vf.Kind, b []byte) int {
	switch k.Wire() {
	case 1:
		return len(b) / 8
	case 5:
		return len(b) / 4
	}
	return countVarints(b)
}

func countVarints(b []byte) int {
	n := 0
	for _, c := range b {
		if c < 0x80 {
			n++
		}
	}
	return n
}

// optionAPI checks the accessors of optional wrappers against each other.
func optionAPI(c *Ctx, t *vf.Msg, v *vf.MVal, p reflect.Value) {
	for i, f := range t.Fields {
		if f.Card != vf.Opt {
			continue
		}
		x := &v.F[i]
		o := p.Elem().Field(f.GoIndex).Addr().Interface()
		some, none, def := false, false, false
		switch o := o.(type) {
		case *proto.Option[bool]:
			some, none, def = o.IsSome(), o.IsNone(), o.UnwrapOr(!o.Unwrap()) != o.Unwrap()
		case *proto.Option[int32]:
			some, none, def = o.IsSome(), o.IsNone(), o.UnwrapOr(^o.Unwrap()) != o.Unwrap()
		case *proto.Option[int64]:
			some, none, def = o.IsSome(), o.IsNone(), o.UnwrapOr(^o.Unwrap()) != o.Unwrap()
		case *proto.Option[uint32]:
			some, none, def = o.IsSome(), o.IsNone(), o.UnwrapOr(^o.Unwrap()) != o.Unwrap()
		case *proto.Option[uint64]:
			some, none, def = o.IsSome(), o.IsNone(), o.UnwrapOr(^o.Unwrap()) != o.Unwrap()
		case *proto.Option[string]:
			some, none, def = o.IsSome(), o.IsNone(), o.UnwrapOr(o.Unwrap()+"x") != o.Unwrap()
		default:
			continue
		}
		if some != x.Set || none == x.Set || def == x.Set {
			c.Fail("optional field %d is set=%v but IsSome=%v IsNone=%v, default used=%v", f.Num, x.Set, some, none, def)
		}
	}
}
