package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"verif/fam"
	"verif/vf"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	props["C08"] = prop{run: c08}
	props["C09"] = prop{run: c09}
	props["C16"] = prop{run: c16}
}

// truncate cuts some lists of the message short, keeping their backing arrays.
func truncate(c *Ctx, t *vf.Msg, p reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	s := p.Elem()
	for _, f := range t.Fields {
		d := s.Field(f.GoIndex)
		switch {
		case f.Card == vf.Rep:
			if f.Kind == vf.Message {
				for i := 0; i < d.Len(); i++ {
					if !d.Index(i).IsNil() {
						truncate(c, f.Sub, d.Index(i), depth+1)
					}
				}
			}
			if d.Len() > 0 && c.Chance(60) {
				d.Set(d.Slice(0, c.R.Intn(d.Len()+1)))
				c.Cover("step:list truncated")
			}
		case f.Card == vf.Map:
			if f.Kind == vf.Message {
				c.EachEntry(d, func(_, v reflect.Value) {
					if !v.IsNil() {
						truncate(c, f.Sub, v, depth+1)
					}
				})
			}
			if d.Len() > 0 && c.Chance(30) {
				for _, k := range d.MapKeys() {
					if c.Chance(50) {
						d.SetMapIndex(k, reflect.Value{})
					}
				}
				c.Cover("step:map entries deleted")
			}
		case f.Kind == vf.Message:
			if !d.IsNil() {
				truncate(c, f.Sub, d, depth+1)
			}
		}
	}
}

// overlapping draws a value that hits the same fields as v.
func overlapping(c *Ctx, t *vf.Msg, v *vf.MVal) *vf.MVal {
	if c.Chance(30) {
		w := v.Clone()
		vf.Perturb(c.R, w)
		c.Cover("step:slightly changed content")
		return w
	}
	w := c.bigValue(t)
	for i, f := range t.Fields {
		// reuse map keys so that entries are replaced
		if f.Card == vf.Map && len(v.F[i].KV) > 0 && len(w.F[i].KV) > 0 && c.Chance(60) {
			k := v.F[i].KV[c.R.Intn(len(v.F[i].KV))].K
			x := &w.F[i]
			dup := false
			for _, e := range x.KV {
				if e.K == k {
					dup = true
				}
			}
			if !dup {
				x.KV[c.R.Intn(len(x.KV))].K = k
				c.Cover("step:map entry replaced")
			}
		}
	}
	return w
}

// C08: merging.
func c08(c *Ctx) {
	t := c.normalType()
	for i := 0; i < 3; i++ {
		v := c.bigValue(t)
		p := c.build(v)
		model := v.Clone()
		c.Trace("start %v", v)
		steps := 1 + c.R.Intn(6)
		for s := 0; s < steps; s++ {
			switch k := c.R.Intn(12); {
			case k < 7: // decode
				w := overlapping(c, t, model)
				o := &vf.EncOpt{}
				if c.Chance(60) {
					o = c.pads(&vf.EncOpt{Shuffle: c.Chance(50), Packed: c.Chance(50), LongVar: c.Chance(20), Repeat: c.Chance(40), MapForms: c.Chance(50), Unknown: 5 * c.R.Intn(2)})
				}
				b := vf.EncodeVariant(c.R, w, o)
				c.Trace("decode %s = %v", hx(b), w)
				var concat []byte
				if c.Chance(50) {
					// the same through a concatenation, into a fresh message
					concat = append(vf.MustMarshal(p.Interface()), b...)
				}
				if err := vf.Unmarshal(b, p.Interface()); err != nil {
					c.Fail("decoding into a message with content failed: %v", err)
				}
				mergeBytes(t, model, b)
				if d := vf.Diff(model, vf.Read(t, p)); d != "" {
					c.Fail("decoding into a message with content did not merge: %s", d)
				}
				c.Eval()
				if concat != nil {
					q := vf.New(t)
					if err := vf.Unmarshal(concat, q.Interface()); err != nil {
						c.Fail("decoding the concatenation failed: %v (%s)", err, hx(concat))
					}
					if d := vf.Diff(model, vf.Read(t, q)); d != "" {
						c.Fail("decoding the concatenation gives another message: %s", d)
					}
					c.Cover("step:concatenation compared")
					c.Eval()
				}
				c.Cover("step:decode")
				if !model.Empty() {
					c.Nontrivial(t.String(), model.String(), b)
				}
			case k < 9: // cut lists
				truncate(c, t, p, 0)
				model = vf.Read(t, p)
				c.Trace("truncate -> %v", model)
			case k < 11: // failed decode
				w := overlapping(c, t, model)
				bad, what := vf.Malform(c.R, t, vf.EncodeVariant(c.R, w, &vf.EncOpt{Shuffle: true, Packed: c.Chance(50), MapForms: c.Chance(50)}))
				if _, prob := vf.Decode(t, bad); prob == nil || prob.Class == vf.Unspecified {
					continue
				}
				c.Trace("malformed decode (%s) %s", what, hx(bad))
				vf.Unmarshal(bad, p.Interface())
				model = vf.Read(t, p)
				c.Trace("  left %v", model)
				c.Cover("step:failed decode")
			default: // nothing to decode
				if err := vf.Unmarshal(nil, p.Interface()); err != nil {
					c.Fail("decoding nothing failed: %v", err)
				}
				if d := vf.Diff(model, vf.Read(t, p)); d != "" {
					c.Fail("decoding nothing changed the message: %s", d)
				}
				c.Eval()
			}
		}
		c.Sample("%v", c.trace)
		c.trace = c.trace[:1]
	}
}

// mergeBytes merges an encoding into the model with the reference decoder.
func mergeBytes(t *vf.Msg, model *vf.MVal, b []byte) {
	if prob := vf.DecodeInto(model, b); prob != nil {
		harness("reference decoder rejects the input: %v", prob)
	}
}

// ---- C09 ----

// span is a piece of memory that belongs to a message.
type span struct {
	lo, hi  uintptr
	mutable bool
	what    string
	ptr     unsafe.Pointer // keeps the memory alive
}

func (c *Ctx) spans(t *vf.Msg, p reflect.Value) []span {
	var out []span
	add := func(lo unsafe.Pointer, n uintptr, mut bool, what string) {
		if n > 0 && lo != nil {
			out = append(out, span{uintptr(lo), uintptr(lo) + n, mut, what, lo})
		}
	}
	str := func(s string, what string) { add(unsafe.Pointer(unsafe.StringData(s)), uintptr(len(s)), false, what) }
	var msg func(t *vf.Msg, p reflect.Value, path string)
	elem := func(f *vf.Field, e reflect.Value, path string) {
		switch f.Kind {
		case vf.Message:
			if !e.IsNil() {
				msg(f.Sub, e, path)
			}
		case vf.Bytes:
			if e.Cap() > 0 {
				add(e.UnsafePointer(), uintptr(e.Cap()), true, path)
			}
		case vf.String:
			str(e.String(), path)
		}
	}
	msg = func(t *vf.Msg, p reflect.Value, path string) {
		add(p.UnsafePointer(), t.Go.Size(), true, path)
		s := p.Elem()
		for _, f := range t.Fields {
			d := s.Field(f.GoIndex)
			fp := fmt.Sprintf("%s.%d", path, f.Num)
			switch f.Card {
			case vf.Rep:
				if d.Cap() > 0 {
					add(d.UnsafePointer(), uintptr(d.Cap())*d.Type().Elem().Size(), true, fp+"[]")
				}
				for i := 0; i < d.Len(); i++ {
					elem(f, d.Index(i), fmt.Sprintf("%s[%d]", fp, i))
				}
			case vf.Map:
				if !d.IsNil() {
					// the map header; its tables cannot be seen from outside
					add(d.UnsafePointer(), 1, true, fp+" map")
				}
				for it := d.MapRange(); it.Next(); {
					if f.Key == vf.String {
						str(it.Key().String(), fp+" key")
					}
					elem(f, it.Value(), fp+" value")
				}
			case vf.Opt:
				if o, ok := d.Addr().Interface().(*proto.Option[string]); ok {
					str(o.Unwrap(), fp)
				}
			case vf.Ptr:
				if !d.IsNil() {
					add(d.UnsafePointer(), d.Type().Elem().Size(), true, fp+" pointer")
					elem(f, d.Elem(), fp)
				}
			default:
				elem(f, d, fp)
			}
		}
	}
	msg(t, p, t.Name)
	return out
}

// disjoint fails when two pieces of mutable memory, or a mutable and an immutable
// one, overlap.
func (c *Ctx) disjoint(sets ...[]span) {
	var all []span
	for i, s := range sets {
		for _, x := range s {
			x.what = fmt.Sprintf("%c:%s", 'A'+i, x.what)
			all = append(all, x)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].lo < all[j].lo })
	var mut, imm span // furthest reaching so far
	for _, x := range all {
		if x.lo < mut.hi {
			c.Fail("%s (%#x-%#x) shares memory with %s (%#x-%#x)", x.what, x.lo, x.hi, mut.what, mut.lo, mut.hi)
		}
		if x.mutable && x.lo < imm.hi {
			c.Fail("%s (%#x-%#x) shares memory with string %s (%#x-%#x)", x.what, x.lo, x.hi, imm.what, imm.lo, imm.hi)
		}
		if x.mutable {
			if x.hi > mut.hi {
				mut = x
			}
		} else if x.hi > imm.hi {
			imm = x
		}
	}
	c.CoverN("memory ranges compared", len(all))
}

func bufSpan(b []byte, what string) []span {
	if cap(b) == 0 {
		return nil
	}
	p := unsafe.Pointer(unsafe.SliceData(b))
	return []span{{uintptr(p), uintptr(p) + uintptr(cap(b)), true, what, p}}
}

// scribble overwrites all the mutable memory a caller may legitimately write:
// scalars, byte strings including their spare room, list elements, map values.
func (c *Ctx) scribble(t *vf.Msg, p reflect.Value) {
	s := p.Elem()
	bs := func(e reflect.Value) {
		b := e.Bytes()
		b = b[:cap(b)]
		for i := range b {
			b[i] ^= 0x5a
		}
	}
	for _, f := range t.Fields {
		d := s.Field(f.GoIndex)
		switch f.Card {
		case vf.Rep:
			full := d.Slice3(0, d.Cap(), d.Cap())
			for i := 0; i < full.Len(); i++ {
				e := full.Index(i)
				switch f.Kind {
				case vf.Message:
					if !e.IsNil() {
						c.scribble(f.Sub, e)
					}
					if i >= d.Len() {
						e.Set(reflect.New(f.Sub.Go))
					}
				case vf.Bytes:
					bs(e)
				default:
					if c.Chance(50) {
						e.Set(reflect.Zero(e.Type()))
					}
				}
			}
		case vf.Map:
			c.EachEntry(d, func(_, v reflect.Value) {
				switch f.Kind {
				case vf.Message:
					if !v.IsNil() {
						c.scribble(f.Sub, v)
					}
				case vf.Bytes:
					bs(v)
				}
			})
			if !d.IsNil() {
				for _, k := range d.MapKeys() {
					d.SetMapIndex(k, reflect.Zero(d.Type().Elem()))
				}
				if c.Chance(50) {
					d.Clear()
				}
			}
		case vf.Ptr:
			if !d.IsNil() {
				if f.Kind == vf.Bytes {
					bs(d.Elem())
				} else {
					d.Elem().Set(reflect.Zero(d.Type().Elem()))
				}
			}
		default:
			switch {
			case f.Kind == vf.Message && f.Card == vf.Plain:
				if !d.IsNil() {
					c.scribble(f.Sub, d)
				}
			case f.Kind == vf.Bytes && f.Card == vf.Plain:
				bs(d)
			default:
				d.Set(reflect.Zero(d.Type()))
			}
		}
	}
}

// image copies the raw memory of a message: every span, mutable or not.
func image(sp []span) [][]byte {
	var out [][]byte
	for _, s := range sp {
		out = append(out, bytes.Clone(unsafe.Slice((*byte)(s.ptr), int(s.hi-s.lo))))
	}
	return out
}

func sameImage(a, b [][]byte, sp []span) string {
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return fmt.Sprintf("%s: %s -> %s", sp[i].what, hx(a[i]), hx(b[i]))
		}
	}
	return ""
}

// rehome moves the byte strings of a message into one buffer, back to back, each
// with all of the rest as its spare room, and returns the rest.
func rehome(t *vf.Msg, p reflect.Value, buf []byte) []byte {
	s := p.Elem()
	elem := func(f *vf.Field, e reflect.Value) {
		switch f.Kind {
		case vf.Message:
			if !e.IsNil() {
				buf = rehome(f.Sub, e, buf)
			}
		case vf.Bytes:
			if e.CanSet() && !e.IsNil() && e.Len() <= len(buf) {
				n := copy(buf, e.Bytes())
				e.SetBytes(buf[:n])
				buf = buf[n:]
			}
		}
	}
	for _, f := range t.Fields {
		d := s.Field(f.GoIndex)
		switch f.Card {
		case vf.Rep:
			for i := 0; i < d.Len(); i++ {
				elem(f, d.Index(i))
			}
		case vf.Map:
			for it := d.MapRange(); it.Next(); {
				elem(f, it.Value())
			}
		case vf.Ptr:
			if !d.IsNil() {
				elem(f, d.Elem())
			}
		case vf.Opt:
		default:
			elem(f, d)
		}
	}
	return buf
}

// oneBuffer encodes a message whose byte strings are neighbours in one buffer.
func (c *Ctx) oneBuffer(t *vf.Msg, v *vf.MVal) {
	p := c.build(v)
	buf := make([]byte, 512<<c.R.Intn(4))
	for i := range buf {
		buf[i] = 0xc3
	}
	rest := rehome(t, p, buf)
	if len(rest) == len(buf) {
		return
	}
	orig := bytes.Clone(buf)
	n := vf.Size(p.Interface())
	b := vf.MustMarshal(p.Interface())
	if !bytes.Equal(buf, orig) {
		c.Fail("encoding changed the buffer its byte strings are pieces of: %s -> %s", hx(orig), hx(buf))
	}
	if d := vf.Diff(v, vf.Read(t, p)); d != "" {
		c.Fail("encoding changed the message: %s", d)
	}
	if n != len(b) {
		c.Fail("Size is %d, the encoding has %d bytes", n, len(b))
	}
	c.disjoint(bufSpan(b, "encoding"), bufSpan(buf, "buffer of the byte strings"))
	c.Cover("byte strings in one buffer")
	c.Eval()
}

// C09: nothing is shared, nothing changes behind the caller.
// rejects decodes damaged forms of x: they stay as they are, and the message owns what it got.
func (c *Ctx) rejects(t *vf.Msg, x []byte) {
	for i := 0; i < 3; i++ {
		var bad []byte
		switch c.R.Intn(3) {
		case 0:
			bad, _ = vf.Malform(c.R, t, x)
		case 1:
			bad = vf.Mutate(c.R, x, vf.Encode(c.value(t)))
		default:
			bad = append(bytes.Clone(x), vf.HostileRecord(c.R, t)...)
		}
		in := append(make([]byte, 0, len(bad)+16), bad...)
		full := in[:cap(in)]
		orig := bytes.Clone(full)
		p := vf.New(t)
		err := vf.Unmarshal(in, p.Interface())
		if !bytes.Equal(full, orig) {
			c.Fail("decoding (error %v) changed its input: %s -> %s", err, hx(orig), hx(full))
		}
		had := vf.Read(t, p)
		for j := range full {
			full[j] ^= 0xff
		}
		if d := vf.Diff(had, vf.Read(t, p)); d != "" {
			c.Fail("after a decode with error %v, reusing the input altered the message: %s", err, d)
		}
		c.Cover(fmt.Sprintf("damaged input, error %t", err != nil))
		c.Eval()
	}
}

// large does with long values what c09 does with short ones, in rows.
func (c *Ctx) large(t *vf.Msg) {
	n := 1 << (12 + c.R.Intn(10))
	if n < 1<<18 && c.Chance(50) {
		n += c.R.Intn(n)
	}
	var sets [][]span
	var held []heldOutput
	var ps []reflect.Value
	for i := 0; i < 3; i++ {
		v := c.longValue(t, n)
		if v == nil {
			return
		}
		p := c.build(v)
		b := vf.MustMarshal(p.Interface())
		if d := vf.Diff(v, vf.Read(t, p)); d != "" {
			c.Fail("encoding changed the message: %s", d)
		}
		held = append(held, heldOutput{b, bytes.Clone(b), v})
		sets = append(sets, bufSpan(b, "encoding"), c.spans(t, p))
		x := bytes.Clone(b)
		if c.Chance(50) {
			x = vf.EncodeVariant(c.R, v, c.pads(&vf.EncOpt{Shuffle: c.Chance(50), Packed: c.Chance(50), MapForms: c.Chance(40), Unknown: 3}))
		}
		orig := bytes.Clone(x)
		q := vf.New(t)
		if err := vf.Unmarshal(x, q.Interface()); err != nil {
			c.Fail("decoding failed: %v", err)
		}
		if !bytes.Equal(x, orig) {
			c.Fail("decoding changed its input")
		}
		sets = append(sets, bufSpan(x, "input"), c.spans(t, q))
		for j := range x {
			x[j] ^= 0xff
		}
		ps = append(ps, q)
		c.Eval()
	}
	c.disjoint(sets...)
	for i, h := range held {
		if !bytes.Equal(h.b, h.snap) {
			c.Fail("an encoding of %d bytes has changed after the next", len(h.b))
		}
		if d := vf.Diff(h.v, vf.Read(t, ps[i])); d != "" {
			c.Fail("reusing the input of %d bytes, or other calls, altered the decoded message: %s", len(h.b), d)
		}
		c.Eval()
		for j := range h.b {
			h.b[j] = 0xee
		}
		c.scribble(t, ps[i])
	}
	c.Cover("long values in a row")
}

func c09(c *Ctx) {
	t := c.normalType()
	if c.R.Intn(80) == 0 {
		c.large(t)
	}
	var held []heldOutput
	for i := 0; i < 4; i++ {
		v := c.value(t)
		p := c.build(v)
		c.Trace("value %v", v)

		// encoding and sizing leave the message as it is, bit for bit
		sp := c.spans(t, p)
		im := image(sp)
		n := vf.Size(p.Interface())
		if d := sameImage(im, image(sp), sp); d != "" {
			c.Fail("Size changed the message at %s", d)
		}
		b := vf.MustMarshal(p.Interface())
		if d := sameImage(im, image(sp), sp); d != "" {
			c.Fail("Marshal changed the message at %s", d)
		}
		if d := vf.Diff(v, vf.Read(t, p)); d != "" {
			c.Fail("encoding changed the message: %s", d)
		}
		c.Eval()
		c.oneBuffer(t, v)
		c.readOnly(t, v)
		// the output is the caller's alone
		c.disjoint(sp, bufSpan(b, "encoding"))
		c.Eval()
		held = append(held, heldOutput{b, bytes.Clone(b), v})
		b2 := vf.MustMarshal(p.Interface())
		c.disjoint(bufSpan(b, "encoding"), bufSpan(b2, "second encoding"))
		for j := range b2 {
			b2[j] = 0xee
		}
		if m := vf.Size(p.Interface()); m != n {
			c.Fail("overwriting an encoding changed the message: size %d -> %d", n, m)
		}
		if d := vf.Diff(v, vf.Read(t, p)); d != "" {
			c.Fail("overwriting an encoding changed the message: %s", d)
		}
		c.Eval()

		// decoding: the input sits inside a bigger buffer
		o := &vf.EncOpt{Shuffle: c.Chance(50), Packed: c.Chance(50), Repeat: c.Chance(30), MapForms: c.Chance(40), LongVar: c.Chance(40), Wide: c.Chance(40), Unknown: []int{0, 0, 5, 20}[c.R.Intn(4)]}
		x := vf.EncodeVariant(c.R, v, c.pads(o))
		pad := c.R.Intn(20)
		buf := make([]byte, pad+len(x)+24)
		for j := range buf {
			buf[j] = 0xa5
		}
		in := buf[pad : pad+copy(buf[pad:], x)]
		if c.Chance(30) {
			in = in[:len(in):len(in)]
		}
		orig := bytes.Clone(buf)
		q := vf.New(t)
		if c.Chance(40) {
			q = c.build(c.value(t))
			c.Cover("target:with content")
		}
		before := vf.Read(t, q)
		if err := vf.Unmarshal(in, q.Interface()); err != nil {
			c.Fail("decoding failed: %v (%s)", err, hx(x))
		}
		if !bytes.Equal(buf, orig) {
			c.Fail("decoding changed the input buffer: %s -> %s", hx(orig), hx(buf))
		}
		c.Eval()
		want := before
		mergeBytes(t, want, x)
		q2 := vf.New(t)
		if err := vf.Unmarshal(in, q2.Interface()); err != nil {
			c.Fail("second decoding failed: %v", err)
		}
		want2 := vf.NewM(t)
		mergeBytes(t, want2, x)
		c.disjoint(c.spans(t, q), c.spans(t, q2), bufSpan(buf, "input buffer"))
		c.Eval()
		// reuse of the input
		for j := range buf {
			buf[j] ^= 0xff
		}
		if d := vf.Diff(want, vf.Read(t, q)); d != "" {
			c.Fail("reusing the input buffer altered the decoded message: %s", d)
		}
		if d := vf.Diff(want2, vf.Read(t, q2)); d != "" {
			c.Fail("reusing the input buffer altered the decoded message: %s", d)
		}
		c.Eval()
		// changes to one message, and to the source of the encoding
		switch c.R.Intn(3) {
		case 0:
			c.scribble(t, q)
			c.Cover("step:scribble")
		case 1:
			y := vf.EncodeVariant(c.R, c.value(t), vf.AllForms())
			vf.Unmarshal(y, q.Interface())
			c.Cover("step:decode again")
		case 2:
			bad, _ := vf.Malform(c.R, t, x)
			vf.Unmarshal(bad, q.Interface())
			c.Cover("step:failed decode")
		}
		c.rejects(t, x)
		if d := vf.Diff(want2, vf.Read(t, q2)); d != "" {
			c.Fail("changing one decoded message altered another: %s", d)
		}
		c.Eval()
		c.scribble(t, p)
		for _, h := range held {
			if !bytes.Equal(h.b, h.snap) {
				c.Fail("an encoding returned earlier has changed: %s -> %s", hx(h.snap), hx(h.b))
			}
		}
		// appending to a returned encoding must not reach anything else
		if c.Chance(50) {
			h := held[c.R.Intn(len(held))]
			_ = append(h.b, bytes.Repeat([]byte{0xdd}, cap(h.b)-len(h.b))...)
			for _, h := range held {
				if !bytes.Equal(h.b, h.snap) {
					c.Fail("appending to one encoding changed another: %s -> %s", hx(h.snap), hx(h.b))
				}
			}
			if d := vf.Diff(want2, vf.Read(t, q2)); d != "" {
				c.Fail("appending to an encoding altered a message: %s", d)
			}
		}
		// parts of one message: appending to one byte string or list within its
		// capacity must not reach another part; spans() covers the capacities
		c.Eval()
		if !v.Empty() {
			c.Nontrivial(t.String(), v.String(), x)
		}
		c.Sample("%v %v", t, v)
		c.trace = c.trace[:1]
	}
}

type heldOutput struct {
	b, snap []byte
	v       *vf.MVal
}

// ---- C16 ----

type notStruct int
type notStructSlice []byte
type notStructMap map[string]int32
type plainStruct struct {
	A int32 `protobuf:"varint,1,opt"`
	B string
}

func c16(c *Ctx) {
	t := c.normalType()
	goodBytes := vf.Encode(c.value(t))
	inputs := [][]byte{{8, 1}, {0}, {0xff}, goodBytes, bytes.Repeat([]byte{0x80}, 20)}
	// targets
	rp := reflect.New(t.Go)
	i32, str, ns, f64 := int32(7), "seven", notStruct(7), 7.5
	sl, by, mp, ar := []int32{1, 2}, []byte{1, 2}, notStructMap{"a": 1}, [3]uint64{1, 2, 3}
	ifc := any(&plainStruct{A: 5})
	ps := &plainStruct{A: 5, B: "keep"}
	pps := &ps
	var nilps *plainStruct
	var nilpps **plainStruct
	var nili *int32
	fn := func() {}
	ch := make(chan int)
	bad := []any{
		nil, i32, str, ns, f64, sl, by, mp, ar, plainStruct{A: 5}, fn, ch, true, uintptr(4), complex(1, 2), struct{}{},
		&i32, &str, &ns, &f64, &sl, &by, &mp, &ar, &ifc, pps, &pps, &fn, &ch,
		nilps, nilpps, nili, (*any)(nil), (*struct{})(nil), (*[]int32)(nil), unsafe.Pointer(&i32), unsafe.Pointer(nil),
		(*fam.Rec)(nil), reflect.Zero(reflect.PtrTo(t.Go)).Interface(), reflect.Zero(t.Go).Interface(),
		reflect.New(reflect.PtrTo(t.Go)).Interface(), c.value(t).ToGo().Elem().Interface(), errors.New, notStructMap(nil), []byte(nil), (func())(nil),
		(chan int)(nil), rp, &rp, error(nil), errors.New("x"),
	}
	// random pointer chains and containers of the message type
	for i := 0; i < 6; i++ {
		ty := t.Go
		n := 1 + c.R.Intn(3)
		for j := 0; j < n; j++ {
			switch c.R.Intn(5) {
			case 0, 1:
				ty = reflect.PtrTo(ty)
			case 2:
				ty = reflect.SliceOf(ty)
			case 3:
				ty = reflect.MapOf(reflect.TypeOf(""), ty)
			case 4:
				ty = reflect.ArrayOf(2, ty)
			}
		}
		bad = append(bad, reflect.New(ty).Elem().Interface(), reflect.New(reflect.PtrTo(ty)).Interface())
		if ty.Kind() != reflect.Struct {
			bad = append(bad, reflect.New(ty).Interface())
		}
	}
	bad2 := bad[:0:0]
	for _, x := range bad {
		if valid(x) {
			continue // errors.New("x") and reflect.Value pointers are pointers to structs
		}
		bad2 = append(bad2, x)
	}
	for _, x := range bad2 {
		b := inputs[c.R.Intn(len(inputs))]
		if len(b) == 0 {
			b = []byte{8, 1}
		}
		c.Trace("Unmarshal(%s, %T)", hx(b), x)
		snap := fmt.Sprintf("%v %v %v %v %v %v %v %v %v %v", i32, str, ns, f64, sl, by, mp, ar, *ps, *pps == ps)
		err := vf.Unmarshal(b, x)
		if err == nil {
			c.Fail("decoding into %T reported success", x)
		}
		var ie *proto.InvalidUnmarshalError
		if !errors.As(err, &ie) {
			c.Fail("decoding into %T gives %T (%v), not the invalid-target error", x, err, err)
		}
		if ie.Type != reflect.TypeOf(x) {
			c.Fail("the invalid-target error for %T names type %v", x, ie.Type)
		}
		if msg(err) == "" {
			c.Fail("the invalid-target error for %T has no text", x)
		}
		if now := fmt.Sprintf("%v %v %v %v %v %v %v %v %v %v", i32, str, ns, f64, sl, by, mp, ar, *ps, *pps == ps); now != snap {
			c.Fail("decoding into %T wrote to it: %s -> %s", x, snap, now)
		}
		c.Eval()
		c.Cover("decode:" + kindOf(x))
		c.Nontrivial("decode", fmt.Sprintf("%T", x), b)
		// encoding
		rt := reflect.TypeOf(x)
		if rt != nil && rt.Kind() == reflect.Pointer && rt.Elem().Kind() == reflect.Struct {
			// a nil message pointer
			out, err := vf.Marshal(x)
			if err != nil || len(out) != 0 {
				c.Fail("a nil %T encodes to %d bytes, error %v", x, len(out), err)
			}
			if n := vf.Size(x); n != 0 {
				c.Fail("a nil %T has size %d", x, n)
			}
			c.Cover("encode:nil message")
		} else {
			out, err := vf.Marshal(x)
			if err == nil {
				c.Fail("encoding %T reported success (%s)", x, hx(out))
			}
			if msg(err) == "" {
				c.Fail("the error of encoding %T has no text", x)
			}
			if now := fmt.Sprintf("%v %v %v %v %v %v %v %v %v %v", i32, str, ns, f64, sl, by, mp, ar, *ps, *pps == ps); now != snap {
				c.Fail("encoding %T wrote to it", x)
			}
			c.Cover("encode:" + kindOf(x))
		}
		c.Eval()
		c.Nontrivial("encode", fmt.Sprintf("%T", x))
		c.trace = c.trace[:1]
	}
	c.namedPointers()
	// afterwards the type still works
	v := c.value(t)
	p := c.build(v)
	q := vf.New(t)
	if err := vf.Unmarshal(vf.MustMarshal(p.Interface()), q.Interface()); err != nil {
		c.Fail("after unusable arguments, a round trip fails: %v", err)
	}
	if d := vf.Diff(v, vf.Read(t, q)); d != "" {
		c.Fail("after unusable arguments, a round trip goes wrong: %s", d)
	}
	c.Eval()
	c.Sample("%d unusable arguments, the last %T", len(bad2), bad2[len(bad2)-1])
}

type namedRec *fam.Rec
type namedPlain *plainStruct

// namedPointers uses pointer types that have names of their own: a pointer to a message
// all the same.
func (c *Ctx) namedPointers() {
	v := c.value(fromGo(reflect.TypeOf(fam.Rec{})))
	p := c.build(v)
	b := vf.MustMarshal(p.Interface())
	q := &fam.Rec{}
	if err := vf.Unmarshal(b, namedRec(q)); err != nil {
		c.Fail("decoding into a pointer of a named type failed: %v", err)
	}
	if d := vf.Diff(v, vf.Read(v.T, reflect.ValueOf(q))); d != "" {
		c.Fail("decoding into a pointer of a named type: %s", d)
	}
	out, err := vf.Marshal(namedRec(p.Interface().(*fam.Rec)))
	if err != nil || canonBytes(v.T, out) != canonBytes(v.T, b) {
		c.Fail("encoding a pointer of a named type gives %s, error %v; want %s", hx(out), err, hx(b))
	}
	if n := vf.Size(namedRec(p.Interface().(*fam.Rec))); n != len(b) {
		c.Fail("a pointer of a named type has size %d, not %d", n, len(b))
	}
	c.Eval()
	c.Cover("named pointer type")
	x := &plainStruct{A: 5, B: "keep"}
	if err := vf.Unmarshal([]byte{8, 7}, namedPlain(x)); err != nil || x.A != 7 || x.B != "keep" {
		c.Fail("decoding into a pointer of a named type: %v, error %v", *x, err)
	}
	var ie *proto.InvalidUnmarshalError
	if err := vf.Unmarshal([]byte{8, 1}, namedRec(nil)); !errors.As(err, &ie) || ie.Type != reflect.TypeOf(namedRec(nil)) {
		c.Fail("decoding into a nil pointer of a named type gives %v", err)
	}
	if out, err := vf.Marshal(namedRec(nil)); err != nil || len(out) != 0 {
		c.Fail("a nil pointer of a named type encodes to %d bytes, error %v", len(out), err)
	}
	if n := vf.Size(namedRec(nil)); n != 0 {
		c.Fail("a nil pointer of a named type has size %d", n)
	}
	c.Eval()
}

func msg(err error) (s string) {
	defer func() {
		if e := recover(); e != nil {
			vf.Fail("the error %T panics when printed: %v", err, e)
		}
	}()
	return err.Error()
}

// valid tells whether x is a non-nil pointer to a struct.
func valid(x any) bool {
	v := reflect.ValueOf(x)
	return v.IsValid() && v.Kind() == reflect.Pointer && v.Type().Elem().Kind() == reflect.Struct && !v.IsNil()
}

func kindOf(x any) string {
	v := reflect.ValueOf(x)
	if !v.IsValid() {
		return "nil"
	}
	s := v.Kind().String()
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			s = "nil pointer"
		}
		s += " to " + v.Type().Elem().Kind().String()
	}
	return s
}
