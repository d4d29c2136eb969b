package main

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"unsafe"

	"verif/fam"
	"verif/vf"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	props["C12"] = prop{run: c12, setup: func(c *Ctx) {
		if os.Getenv("VERIF_GC") != "" {
			debug.SetGCPercent(1)
			go func() {
				for {
					runtime.GC()
					runtime.Gosched()
				}
			}()
		}
	}}
}

// mem is a message that stays alive across cases and is checked again and again.
type mem struct {
	v     *vf.MVal
	p     reflect.Value
	outer reflect.Value
	can   []canary
	trace string
}

type canary struct {
	t    *vf.Msg
	p    reflect.Value
	snap *vf.Snap
}

var live []*mem

// canaries fills the undeclared fields of every message reachable from p.
func (c *Ctx) canaries(t *vf.Msg, p reflect.Value) []canary {
	var out []canary
	seen := map[unsafe.Pointer]bool{}
	var walk func(t *vf.Msg, p reflect.Value)
	walk = func(t *vf.Msg, p reflect.Value) {
		if p.IsNil() || (t.Go.Size() > 0 && seen[p.UnsafePointer()]) {
			return
		}
		seen[p.UnsafePointer()] = true
		out = append(out, canary{t, p, vf.FillCanaries(t, p, c.R)})
		s := p.Elem()
		for _, f := range t.Fields {
			if f.Kind != vf.Message {
				continue
			}
			d := s.Field(f.GoIndex)
			switch f.Card {
			case vf.Rep:
				for i := 0; i < d.Len(); i++ {
					walk(f.Sub, d.Index(i))
				}
			case vf.Map:
				c.EachEntry(d, func(_, v reflect.Value) { walk(f.Sub, v) })
			default:
				walk(f.Sub, d)
			}
		}
	}
	walk(t, p)
	return out
}

func (c *Ctx) checkCanaries(cs []canary, when string) {
	for _, x := range cs {
		if d := vf.CheckCanaries(x.t, x.p, x.snap); d != "" {
			c.Fail("%s: %s of %s", when, d, x.t.Name)
		}
		c.CoverN("undeclared fields watched", x.snap.Len())
	}
}

// guarded allocates a message between two guard areas.
func guarded(t *vf.Msg) (outer, p reflect.Value) {
	ot := reflect.StructOf([]reflect.StructField{
		{Name: "G1", Type: reflect.TypeOf([24]byte{})},
		{Name: "M", Type: t.Go},
		{Name: "G2", Type: reflect.TypeOf([24]byte{})},
	})
	outer = reflect.New(ot)
	for _, n := range []int{0, 2} {
		g := outer.Elem().Field(n)
		for i := 0; i < g.Len(); i++ {
			g.Index(i).SetUint(uint64(0xc0 + i))
		}
	}
	return outer, outer.Elem().Field(1).Addr()
}

func (c *Ctx) checkGuards(outer reflect.Value, when string) {
	for _, n := range []int{0, 2} {
		g := outer.Elem().Field(n)
		for i := 0; i < g.Len(); i++ {
			if g.Index(i).Uint() != uint64(0xc0+i) {
				c.Fail("%s: the memory next to the message was overwritten (%v)", when, g)
			}
		}
	}
}

// c12 watches everything that is not a declared field, and the integrity of
// everything that is.
func c12(c *Ctx) {
	if os.Getenv("VERIF_GC") != "" && c.Chance(15) {
		c.slowly()
		return
	}
	var t *vf.Msg
	switch c.R.Intn(8) {
	case 0:
		t = fromGo(fam.Layouts[c.R.Intn(len(fam.Layouts))])
		c.Cover("type:hand-written layout")
		c.Trace("type %v", t)
		c.coverType(t)
	default:
		vf.Vast = 300
		t = c.normalType()
		vf.Vast = 0
		if t.Go.Size() > 1<<15 {
			c.Cover("type:vast")
		}
	}
	gc := os.Getenv("VERIF_GC") != ""
	for i := 0; i < 3; i++ {
		v := c.bigValue(t)
		p := c.build(v)
		c.Trace("value %v", v)
		can := c.canaries(t, p)
		sp := c.spans(t, p)
		im := image(sp)
		n := vf.Size(p.Interface())
		b := vf.MustMarshal(p.Interface())
		c.checkCanaries(can, "encoding")
		if d := sameImage(im, image(sp), sp); d != "" {
			c.Fail("encoding wrote to the message: %s", d)
		}
		c.Eval()
		// what is encoded does not depend on undeclared fields
		got, prob := vf.Decode(t, b)
		if prob != nil || n != len(b) {
			c.Fail("encoding next to undeclared fields is damaged: size %d, %d bytes, %v: %s", n, len(b), prob, hx(b))
		}
		if d := vf.Diff(v, got); d != "" {
			c.Fail("undeclared fields influence the encoding: %s (%s)", d, hx(b))
		}
		if toks, ok := vf.Tokens(b); ok {
			for _, k := range toks {
				if t.Index(k.Num) < 0 {
					c.Fail("an undeclared field was encoded as number %d", k.Num)
				}
			}
		}
		c.Eval()

		// decoding into a message between guards, with undeclared fields filled in
		outer, q := guarded(t)
		model := vf.NewM(t)
		if c.Chance(40) {
			w := c.value(t)
			w.Store(q.Elem())
			model = w.Clone()
			c.Cover("target:with content")
		} else if c.Chance(25) {
			w := skeleton(v)
			w.Store(q.Elem())
			model = w.Clone()
			c.Cover("target:nested messages without content")
		}
		qcan := c.canaries(t, q)
		steps := 1 + c.R.Intn(3)
		for s := 0; s < steps; s++ {
			x := vf.EncodeVariant(c.R, v, &vf.EncOpt{Shuffle: c.Chance(50), Packed: c.Chance(50), MapForms: c.Chance(30), Repeat: c.Chance(30), Unknown: 5})
			how := "decoding"
			if c.Chance(25) {
				x, _ = vf.Malform(c.R, t, x)
				how = "decoding malformed input"
			} else if c.Chance(15) {
				x = vf.Mutate(c.R, x, b)
				how = "decoding mutated input"
			}
			c.Trace("%s %s", how, hx(x))
			// the input sits at the very end of its own allocation
			in := make([]byte, len(x))
			copy(in, x)
			var a *pages
			if c.Chance(50) { // or of a page, and nothing may be written to it
				a = newPages()
				in = a.place(in)
				c.Cover("input at the end of a page")
			}
			err := vf.Unmarshal(in, q.Interface())
			if a != nil {
				a.done()
			}
			c.Cover("step:" + how)
			c.checkGuards(outer, how)
			c.checkCanaries(qcan, how)
			if how == "decoding" {
				if err != nil {
					c.Fail("decoding failed: %v", err)
				}
				mergeBytes(t, model, x)
				if d := vf.Diff(model, vf.Read(t, q)); d != "" {
					c.Fail("decoding next to undeclared fields goes wrong: %s", d)
				}
			} else {
				model = vf.Read(t, q)
			}
			c.Eval()
			// messages the library created: their undeclared fields are zero
			c.fresh(t, q, qcan)
			qcan = append(qcan, c.newCanaries(t, q, qcan)...)
		}
		live = append(live, &mem{model, q, outer, qcan, fmt.Sprint(c.trace)})
		if gc {
			// let the collector act on what was just made, then reuse the memory
			runtime.GC()
			junk(c)
		}
		if i == 0 && c.Chance(20) {
			c.lastReference(gc)
		}
		// look again at messages decoded earlier
		for k := 0; k < 3; k++ {
			m := live[c.R.Intn(len(live))]
			c.recheck(m)
		}
		if len(live) > 48 {
			j := c.R.Intn(len(live))
			c.recheck(live[j])
			live[j] = live[len(live)-1]
			live = live[:len(live)-1]
		}
		if !v.Empty() {
			c.Nontrivial(t.String(), v.String())
		}
		c.Sample("%v %v", t, v)
		c.trace = c.trace[:1]
	}
}

// marshalLast encodes a message to which nobody refers any more once the library has it.
//
//go:noinline
func marshalLast(v *vf.MVal) ([]byte, error) { return proto.Marshal(v.ToGo().Interface()) }

//go:noinline
func unmarshalLast(b []byte) error {
	return proto.Unmarshal(append([]byte(nil), b...), new(fam.Rec))
}

// onStack keeps the message in a local variable, where it stays if the library lets it.
//
//go:noinline
func onStack(in []byte) (out []byte, err error) {
	var m fam.Rec
	if err := proto.Unmarshal(in, &m); err != nil {
		return nil, err
	}
	return proto.Marshal(&m)
}

// lastReference uses messages that live only as long as the library needs them.
func (c *Ctx) lastReference(gc bool) {
	v := c.chain([]int{2, 3, 5, 40, 300}[c.R.Intn(5)], 1+c.R.Intn(200))
	t := v.T
	for m := v; m != nil; { // the fields behind the nested message are encoded after it
		i := t.Index(5)
		m.F[i].Set, m.F[i].V.S = true, fmt.Sprint("behind ", c.R.Intn(1000))
		m.F[t.Index(6)].L = []vf.Val{{U: 1}, {U: 2}, {U: 3}}
		next := m.F[t.Index(2)].V.M
		if next == nil && gc {
			n := 1000 << c.R.Intn(6)
			for j := 0; j < n; j++ {
				m.F[t.Index(6)].L = append(m.F[t.Index(6)].L, vf.Val{U: uint64(j)})
			}
		}
		m = next
	}
	c.Trace("chain %v", v)
	b := vf.Encode(v)
	same := func(what string, x []byte, err error) {
		if err != nil {
			c.Fail("%s: %v", what, err)
		}
		got, prob := vf.Decode(t, x)
		if prob != nil {
			c.Fail("%s: garbage, %v (%s)", what, prob, hx(x))
		}
		if d := vf.Diff(v, got); d != "" {
			c.Fail("%s: another message, %s", what, d)
		}
		c.Eval()
	}
	for k := 0; k < 4; k++ {
		x, err := marshalLast(v)
		same("encoding a message that is not used afterwards", x, err)
		if err := unmarshalLast(b); err != nil {
			c.Fail("decoding into a message that is not used afterwards: %v", err)
		}
		if gc {
			junk(c)
		}
	}
	done := make(chan struct{})
	var x []byte
	var err error
	go func() { // a small stack, which grows
		defer close(done)
		x, err = onStack(b)
	}()
	<-done
	same("decoding into and encoding a local variable", x, err)
	c.Cover("messages without another reference")
}

// slowly decodes messages in the middle of which a collection can begin and end, as
// they contain very many fields to be skipped.
func (c *Ctx) slowly() {
	sub := vf.Gen(c.R, &vf.GenOpt{MaxFields: 3, Canary: true})
	var fields []*vf.Field
	for n := 3 + c.R.Intn(8); n > 0; n-- {
		f := vf.GenField(c.R, []*vf.Msg{sub}, &vf.GenOpt{})
		if c.Chance(75) { // the entries of maps are built aside, some of them equally long
			f = &vf.Field{Card: vf.Map, Key: []vf.Kind{vf.Uint64, vf.String, vf.Uint32, vf.Bool}[c.R.Intn(4)]}
			f.Kind = []vf.Kind{vf.Message, vf.Message, vf.Message, vf.Uint64, vf.String, vf.Bytes, vf.Fixed64}[c.R.Intn(7)]
			if f.Kind == vf.Message {
				f.Sub = sub
			}
		}
		fields = append(fields, f)
	}
	t := vf.NewMsg(c.R, "Slow", fields, true)
	c.Trace("slowly: type %v", t)
	check := func(v *vf.MVal, x []byte) {
		p := vf.New(t)
		if err := vf.Unmarshal(x, p.Interface()); err != nil {
			c.Fail("decoding slowly: %v", err)
		}
		junk(c)
		if d := vf.Diff(v, vf.Read(t, p)); d != "" {
			c.Fail("decoding slowly goes wrong: %s", d)
		}
		c.fresh(t, p, nil)
		c.Eval()
	}
	value := func() *vf.MVal {
		b := 40
		return vf.GenM(c.R, t, &vf.ValOpt{MaxList: 3, MaxStr: 40, Fill: 100, Budget: &b, MaxDepth: 3})
	}
	for k := 0; k < 4; k++ {
		v := value()
		x := vf.EncodeVariant(c.R, v, &vf.EncOpt{Shuffle: true, MapForms: true, Unknown: 3, Pads: 1 + c.R.Intn(4), Pad: 64000 << uint(c.R.Intn(4))})
		c.Trace("value %v in %d bytes", v, len(x))
		check(v, x)
	}
	var maps []int
	for i, f := range t.Fields {
		if f.Card == vf.Map {
			maps = append(maps, i)
		}
	}
	for k := 0; k < 80 && len(maps) > 0; k++ {
		// an entry whose parts are far apart, right after one of another map
		i, j := maps[c.R.Intn(len(maps))], maps[c.R.Intn(len(maps))]
		v := value()
		one := func(i int) *vf.MVal {
			m := vf.NewM(t)
			if kv := v.F[i].KV; len(kv) > 0 {
				m.F[i].KV = kv[:1]
			}
			return m
		}
		before, m := one(i), one(j)
		toks, ok := vf.Tokens(vf.Encode(m))
		if !ok || len(toks) != 1 {
			continue
		}
		parts, _ := vf.Tokens(toks[0].Data)
		if len(parts) != 2 {
			continue
		}
		if c.Chance(70) {
			parts[0], parts[1] = parts[1], parts[0]
		}
		pad := bytes.Repeat([]byte{3 << 3, 0}, 16000<<uint(c.R.Intn(5)))
		e := toks[0].Data
		data := append([]byte(nil), e[parts[0].Start:parts[0].End]...)
		data = append(append(data, pad...), e[parts[1].Start:parts[1].End]...)
		if c.Chance(30) {
			data = append(data, pad...)
		}
		x := vf.PutVarint(nil, uint64(toks[0].Num)<<3|2)
		x = append(vf.PutVarint(x, uint64(len(data))), data...)
		c.Trace("value %v after %v, padded to %d bytes", m, before, len(x))
		if err := vf.Unmarshal(vf.Encode(before), vf.New(t).Interface()); err != nil {
			c.Fail("decoding %v: %v", before, err)
		}
		check(m, x)
		c.trace = c.trace[:1]
	}
	c.Cover("collections during a call")
}

// skeleton has the nested messages of v, and nothing in them.
func skeleton(v *vf.MVal) *vf.MVal {
	m := vf.NewM(v.T)
	for i, f := range v.T.Fields {
		if x := &v.F[i]; f.Kind == vf.Message && f.Card == vf.Plain && x.Set && x.V.M != nil {
			m.F[i].Set, m.F[i].V.M = true, skeleton(x.V.M)
		}
	}
	return m
}

func (c *Ctx) recheck(m *mem) {
	if d := vf.Diff(m.v, vf.Read(m.v.T, m.p)); d != "" {
		c.trace = append(c.trace, "the message was made by: "+m.trace)
		c.Fail("a message decoded earlier has changed: %s", d)
	}
	c.checkGuards(m.outer, "later")
	c.checkCanaries(m.can, "later")
	b := vf.MustMarshal(m.p.Interface())
	got, prob := vf.Decode(m.v.T, b)
	if prob != nil {
		c.Fail("a message decoded earlier no longer encodes: %v", prob)
	}
	if d := vf.Diff(m.v, got); d != "" {
		c.trace = append(c.trace, "the message was made by: "+m.trace)
		c.Fail("a message decoded earlier now encodes differently: %s", d)
	}
	c.Eval()
	c.Cover("step:looked at again later")
}

var sink [][]byte

// junk allocates and fills memory of many sizes, so that memory freed too early
// is overwritten.
func junk(c *Ctx) {
	sink = sink[:0]
	for _, n := range []int{8, 16, 24, 32, 48, 64, 80, 96, 128, 160, 208, 256, 512, 1024} {
		for i := 0; i < 6; i++ {
			sink = append(sink, bytes.Repeat([]byte{0xdb}, n))
		}
	}
}

// fresh checks the undeclared fields of messages made by the library.
func (c *Ctx) fresh(t *vf.Msg, p reflect.Value, known []canary) {
	c.eachNew(t, p, known, func(t *vf.Msg, p reflect.Value) {
		for _, i := range t.Canary {
			f := p.Elem().Field(i)
			if !f.IsZero() {
				c.Fail("a new %s has %v in its undeclared field %s", t.Name, f, t.Go.Field(i).Name)
			}
			c.Cover("new messages: undeclared fields zero")
		}
	})
}

func (c *Ctx) newCanaries(t *vf.Msg, p reflect.Value, known []canary) []canary {
	var out []canary
	c.eachNew(t, p, known, func(t *vf.Msg, p reflect.Value) {
		out = append(out, canary{t, p, vf.FillCanaries(t, p, c.R)})
	})
	return out
}

func (c *Ctx) eachNew(t *vf.Msg, p reflect.Value, known []canary, do func(*vf.Msg, reflect.Value)) {
	old := map[unsafe.Pointer]bool{}
	for _, k := range known {
		old[k.p.UnsafePointer()] = true
	}
	var walk func(t *vf.Msg, p reflect.Value)
	walk = func(t *vf.Msg, p reflect.Value) {
		if p.IsNil() {
			return
		}
		if !old[p.UnsafePointer()] {
			old[p.UnsafePointer()] = true
			do(t, p)
		}
		s := p.Elem()
		for _, f := range t.Fields {
			if f.Kind != vf.Message {
				continue
			}
			d := s.Field(f.GoIndex)
			switch f.Card {
			case vf.Rep:
				for i := 0; i < d.Len(); i++ {
					walk(f.Sub, d.Index(i))
				}
			case vf.Map:
				c.EachEntry(d, func(_, v reflect.Value) { walk(f.Sub, v) })
			default:
				walk(f.Sub, d)
			}
		}
	}
	walk(t, p)
}
