package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"syscall"

	"verif/fam"
	"verif/vf"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	props["C06"] = prop{run: c06}
	props["C06deep"] = prop{run: c06deep}
	props["C07"] = prop{run: c07}
}

func cpuNanos() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return (ru.Utime.Nano() + ru.Stime.Nano())
}

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// recordCost bounds what one record may legitimately allocate for type t.
func recordCost(t *vf.Msg) uint64 {
	max := uint64(0)
	for _, m := range t.All() {
		if s := uint64(m.Go.Size()); s > max {
			max = s
		}
	}
	return 2*max + 4608
}

// usable checks that a message can be read, sized, encoded and decoded into again.
func usable(c *Ctx, t *vf.Msg, p reflect.Value) *vf.MVal {
	m := vf.Read(t, p)
	b := vf.MustMarshal(p.Interface())
	if n := vf.Size(p.Interface()); n != len(b) {
		c.Fail("after the decode, Size is %d but the encoding has %d bytes", n, len(b))
	}
	back, prob := vf.Decode(t, b)
	if prob != nil {
		c.Fail("after the decode, the message encodes to garbage: %v (%s)", prob, hx(b))
	}
	if d := vf.Diff(m, back); d != "" {
		c.Fail("after the decode, the encoding differs from the message: %s", d)
	}
	return m
}

func c06(c *Ctx) {
	if c.Case%40 == 39 {
		c06big(c)
		return
	}
	if c.Case%40 == 19 {
		c06many(c)
		return
	}
	if c.Case%40 == 29 {
		c06tight(c)
		return
	}
	t := c.normalType()
	// first use is over before anything is measured
	warm := vf.New(t)
	vf.MustMarshal(warm.Interface())
	vf.Unmarshal(vf.Encode(c.value(t)), warm.Interface())
	rc := recordCost(t)
	for i := 0; i < 10; i++ {
		v, w := c.value(t), c.value(t)
		var b []byte
		how := ""
		switch k := c.R.Intn(10); {
		case k == 0:
			b = make([]byte, c.R.Intn(64))
			c.R.Read(b)
			how = "random"
		case k < 5:
			b = vf.Mutate(c.R, vf.EncodeVariant(c.R, v, &vf.EncOpt{Packed: true, Shuffle: true}), vf.Encode(w))
			how = "mutated"
		case k < 8:
			for n := 1 + c.R.Intn(3); n > 0; n-- {
				b = append(b, vf.HostileRecord(c.R, t)...)
			}
			if c.Chance(50) {
				b = append(vf.Encode(v), b...)
			}
			how = "hostile claims"
		default:
			b, how = vf.Malform(c.R, t, vf.EncodeVariant(c.R, v, vf.AllForms()))
			how = "malformed"
		}
		c.Trace("input (%s) %s", how, hx(b))
		c.Cover("input:" + how)
		p := vf.New(t)
		if c.Chance(20) {
			p = w.ToGo()
			c.Cover("target:with content")
		}
		in, a := b, newPages()
		if c.Chance(60) {
			in = a.place(b) // behind it is nothing
			c.Cover("input at the end of a page")
		}
		a0 := totalAlloc()
		err := vf.Unmarshal(in, p.Interface())
		a1 := totalAlloc()
		a.done()
		bound := 65536 + uint64(len(b)/2+1)*rc + 32*uint64(len(b))
		if a1-a0 > bound {
			c.Fail("decoding %d bytes allocated %d bytes (allowance %d), error %v", len(b), a1-a0, bound, err)
		}
		c.Eval()
		if i == 0 && len(b) < 4096 {
			// the first calls for a type may prepare something, others not
			const rounds = 64
			var ps [rounds]interface{}
			for i := range ps {
				ps[i] = vf.New(t).Interface()
			}
			a0 := totalAlloc()
			for i := range ps {
				vf.Unmarshal(b, ps[i])
			}
			al := (totalAlloc() - a0) / rounds
			if bound := 1024 + uint64(len(b)/2+1)*rc + 32*uint64(len(b)); al > bound {
				c.Fail("decoding %d bytes allocates %d bytes each time (allowance %d), error %v", len(b), al, bound, err)
			}
			c.Eval()
			c.Cover("repeated calls")
		}
		if err != nil {
			c.Cover("verdict:error")
			text(c, err, len(b))
		} else {
			c.Cover("verdict:ok")
		}
		m := usable(c, t, p)
		x := c.value(t)
		xb := vf.Encode(x)
		c.Trace("then decode %v", x)
		if err := vf.Unmarshal(xb, p.Interface()); err != nil {
			c.Fail("after a hostile input, decoding valid bytes fails: %v", err)
		}
		m.Merge(x)
		if d := vf.Diff(m, vf.Read(t, p)); d != "" {
			c.Fail("after a hostile input, decoding valid bytes goes wrong: %s", d)
		}
		c.Eval()
		if len(b) > 0 {
			c.Nontrivial(t.String(), b)
		}
		c.Sample("%v <- (%s) %s: %v", t, how, hx(b), err)
		c.trace = c.trace[:1]
	}
}

// c06big feeds long inputs of many small records: work and allocation must stay
// proportional to the length.
func c06big(c *Ctx) {
	t := c.normalType()
	if len(t.Fields) == 0 {
		return
	}
	warm := vf.New(t)
	vf.MustMarshal(warm.Interface())
	f := t.Fields[c.R.Intn(len(t.Fields))]
	n := 1 << uint(13+c.R.Intn(4))
	mode := []string{"known", "known", "unknown", "packed", "one sub-message", "merged sub-messages"}[c.R.Intn(6)]
	if strings.HasSuffix(mode, "sub-messages") || mode == "one sub-message" {
		for _, g := range t.Fields { // prefer a field that fits
			if g.Card == vf.Plain && g.Kind == vf.Message && len(g.Sub.Fields) > 0 {
				f = g
			}
		}
	}
	if mode == "packed" && (f.Card != vf.Rep || !f.Kind.Packable()) {
		mode = "known"
	}
	if strings.Contains(mode, "sub-message") && (f.Card != vf.Plain || f.Kind != vf.Message || len(f.Sub.Fields) == 0) {
		mode = "known"
	}
	record := func(t *vf.Msg, f *vf.Field, i int) []byte {
		m := vf.NewM(t)
		x := &m.F[t.Index(f.Num)]
		bud := 1
		o := &vf.ValOpt{MaxStr: 6, Budget: &bud, MaxDepth: 0, MaxList: 1}
		switch f.Card {
		case vf.Rep:
			x.L = []vf.Val{vf.GenVal(c.R, f.Kind, f.Sub, o)}
		case vf.Map:
			k := vf.GenVal(c.R, f.Key, nil, o)
			k.U = vf.Canon(f.Key, uint64(i))
			x.KV = []vf.KV{{K: k, V: vf.GenVal(c.R, f.Kind, f.Sub, o)}}
		default:
			x.Set, x.V = true, vf.GenVal(c.R, f.Kind, f.Sub, o)
		}
		return vf.Encode(m)
	}
	pick := c.R.Intn(1000)
	build := func(n int) []byte {
		var b []byte
		switch mode {
		case "known":
			for i := 0; i < n; i++ {
				b = append(b, record(t, f, i)...)
			}
		case "unknown":
			u := vf.UnknownNum(c.R, t)
			for i := 0; i < n; i++ {
				b = append(b, vf.UnknownRecord(c.R, u)...)
				if len(b) > 4<<20 {
					break
				}
			}
		case "packed":
			var pl []byte
			for i := 0; i < n; i++ {
				r := record(t, f, i)
				k, _ := vf.Tokens(r)
				_, ln := uvarintLen(r)
				if len(k) == 1 {
					pl = append(pl, r[ln:]...)
				}
			}
			b = vf.PutVarint(nil, uint64(f.Num)<<3|2)
			b = append(vf.PutVarint(b, uint64(len(pl))), pl...)
		case "one sub-message":
			g := f.Sub.Fields[pick%len(f.Sub.Fields)]
			var pl []byte
			for i := 0; i < n; i++ {
				pl = append(pl, record(f.Sub, g, i)...)
			}
			b = vf.PutVarint(nil, uint64(f.Num)<<3|2)
			b = append(vf.PutVarint(b, uint64(len(pl))), pl...)
		case "merged sub-messages":
			g := f.Sub.Fields[pick%len(f.Sub.Fields)]
			for i := 0; i < n; i++ {
				pl := record(f.Sub, g, i)
				b = vf.PutVarint(b, uint64(f.Num)<<3|2)
				b = append(vf.PutVarint(b, uint64(len(pl))), pl...)
			}
		}
		return b
	}
	b := build(n)
	c.Trace("big input: %s of field %d (%s), %d records, %d bytes", mode, f.Num, f.Shape(), n, len(b))
	c.Cover("input:big " + mode)
	measure := func(b []byte) (int64, uint64) {
		p := vf.New(t)
		a0, t0 := totalAlloc(), cpuNanos()
		if err := vf.Unmarshal(b, p.Interface()); err != nil {
			c.Fail("big valid input rejected: %v", err)
		}
		t1, a1 := cpuNanos(), totalAlloc()
		ref, prob := vf.Decode(t, b)
		if prob != nil {
			harness("big input invalid: %v", prob)
		}
		if d := vf.Diff(ref, vf.Read(t, p)); d != "" {
			c.Fail("big input decoded wrongly: %s", d)
		}
		return t1 - t0, a1 - a0
	}
	cpu, al := measure(b)
	c.Eval()
	if part := build(n / 8); len(part) > len(b)/10 {
		if _, few := measure(part); al > 11*few+1<<20 {
			c.Fail("decoding %d records (%d bytes) allocated %d bytes, an eighth of it %d", n, len(b), al, few)
		}
		c.Eval()
	}
	bound := uint64(2<<20) + uint64(n)*600 + 16*uint64(len(b))
	for _, m := range t.All() {
		if f.Kind == vf.Message || strings.Contains(mode, "sub-message") {
			bound += uint64(n) * (2*uint64(m.Go.Size()) + 5000)
		}
	}
	if al > bound {
		c.Fail("decoding %d records (%d bytes) allocated %d bytes, allowance %d", n, len(b), al, bound)
	}
	if cpu > 40e6 {
		// more than linear work needs: compare with an eighth of the input
		part := build(n / 8)
		small, _ := measure(part)
		if x, _ := measure(part); x < small {
			small = x
		}
		for i := 0; i < 3 && cpu > 32*small; i++ { // what else goes on may have disturbed it
			if x, _ := measure(part); x < small {
				small = x
			}
			if x, _ := measure(b); x < cpu {
				cpu = x
			}
			if cpu < 40e6 {
				break
			}
			if i == 2 && cpu > 32*small {
				c.Fail("decoding %d records took %.3f CPU seconds, an eighth of it took %.4f", n, float64(cpu)/1e9, float64(small)/1e9)
			}
		}
		c.Cover("work compared with that of an eighth")
	}
	c.Eval()
	c.Nontrivial(t.String(), mode, f.Num, n)
}

// c06many decodes a list or map of many messages with one record each: what each of
// them takes is bounded by what it holds.
func c06many(c *Ctx) {
	var ms []*vf.Msg
	var fs []*vf.Field
	for _, t := range append(c.normalType().All(), famType(c.R).All()...) {
		for _, f := range t.Fields {
			if (f.Card == vf.Rep || f.Card == vf.Map) && f.Kind == vf.Message && len(f.Sub.Fields) > 0 {
				ms, fs = append(ms, t), append(fs, f)
			}
		}
	}
	if len(ms) == 0 {
		return
	}
	k := c.R.Intn(len(ms))
	t, f := ms[k], fs[k]
	g := f.Sub.Fields[c.R.Intn(len(f.Sub.Fields))]
	n := 1 << uint(10+c.R.Intn(3))
	bud := 1
	o := &vf.ValOpt{MaxStr: 6, Budget: &bud, MaxDepth: 1, MaxList: 1}
	m := vf.NewM(t)
	x := &m.F[t.Index(f.Num)]
	seen := map[vf.Val]bool{}
	for i := 0; i < n; i++ {
		e := vf.NewM(f.Sub)
		y := &e.F[f.Sub.Index(g.Num)]
		bud = 1
		switch g.Card {
		case vf.Rep:
			y.L = []vf.Val{vf.GenVal(c.R, g.Kind, g.Sub, o)}
		case vf.Map:
			y.KV = []vf.KV{{K: vf.GenVal(c.R, g.Key, nil, o), V: vf.GenVal(c.R, g.Kind, g.Sub, o)}}
		default:
			y.Set, y.V = true, vf.GenVal(c.R, g.Kind, g.Sub, o)
		}
		if f.Card == vf.Rep {
			x.L = append(x.L, vf.Val{M: e})
			continue
		}
		key := vf.GenVal(c.R, f.Key, nil, o)
		if !seen[key] {
			seen[key] = true
			x.KV = append(x.KV, vf.KV{K: key, V: vf.Val{M: e}})
		}
	}
	b := vf.Encode(m)
	c.Trace("%v, field %d: %d messages with field %d (%s), %d bytes", t, f.Num, n, g.Num, g.Shape(), len(b))
	warm := vf.New(t)
	if err := vf.Unmarshal(b, warm.Interface()); err != nil {
		c.Fail("big valid input rejected: %v", err)
	}
	p := vf.New(t)
	_, al := cost(func() { vf.Unmarshal(b, p.Interface()) })
	size := func(k vf.Kind, m *vf.Msg) uint64 { // of a value of its own
		if m != nil {
			return 16 + uint64(m.Go.Size())
		}
		return 16
	}
	per := 300 + 2*size(f.Kind, f.Sub) + 2*size(g.Kind, g.Sub)
	switch g.Card {
	case vf.Rep:
		per += 16 * 24
	case vf.Map:
		per += 24*32 + 200
	}
	bound := 64<<10 + uint64(n)*per + 16*uint64(len(b))
	if debugMany {
		fmt.Printf("%.2f %d %d %s in %s\n", float64(al)/float64(bound), al/uint64(n), per, g.Shape(), f.Shape())
	}
	if al > bound {
		c.Fail("decoding %d messages with one record of field %d each (%d bytes) allocated %d bytes, allowance %d", n, g.Num, len(b), al, bound)
	}
	c.Cover("input:many messages in " + f.Card.String())
	c.Eval()
	c.Nontrivial(t.String(), "many", f.Num, g.Num, n)
}

// room is what it takes, generously, to hold a value.
func room(m *vf.MVal) uint64 {
	n := uint64(m.T.Go.Size()) + 64
	one := func(f *vf.Field, v vf.Val) uint64 {
		if v.M != nil {
			return room(v.M) + 8
		}
		if f.Kind == vf.String || f.Kind == vf.Bytes {
			return uint64(len(v.S))*5/4 + 40
		}
		return 16
	}
	for i, f := range m.T.Fields {
		x := &m.F[i]
		switch f.Card {
		case vf.Rep:
			if len(x.L) > 0 && len(x.L) < 64 {
				n += uint64(64-len(x.L)) * 12
			}
			for _, e := range x.L {
				n += 2*24 + one(f, e)
			}
		case vf.Map:
			if len(x.KV) > 0 {
				n += 2000
			}
			for _, e := range x.KV {
				n += 300 + uint64(len(e.K.S))*5/4 + one(f, e.V)
			}
		default:
			if x.Set || !f.Explicit() {
				n += one(f, x.V)
			}
		}
	}
	return n
}

// c06tight decodes valid encodings, of which nothing is thrown away: what is allocated is
// what the message needs, up to a small factor.
func c06tight(c *Ctx) {
	t := c.normalType()
	vf.MustMarshal(vf.New(t).Interface())
	for i := 0; i < 20; i++ {
		b := []int{1, 3, 20, 200}[c.R.Intn(4)]
		v := vf.GenM(c.R, t, &vf.ValOpt{MaxList: 6, MaxStr: []int{40, 700, 5000}[c.R.Intn(3)], Fill: []int{10, 40, 80}[c.R.Intn(3)], Budget: &b, MaxDepth: 4})
		if c.Chance(60) {
			vf.Sign(c.R, v)
		}
		in := vf.Encode(v)
		const rounds = 8
		var ps [rounds]interface{}
		for i := range ps {
			ps[i] = vf.New(t).Interface()
		}
		if err := vf.Unmarshal(in, vf.New(t).Interface()); err != nil {
			c.Fail("valid input rejected: %v", err)
		}
		_, al := cost(func() {
			for _, p := range ps {
				vf.Unmarshal(in, p)
			}
		})
		al /= rounds
		bound := 1024 + 2*room(v) + 4*uint64(len(in))
		if debugMany {
			fmt.Printf("tight %.2f %d %d\n", float64(al)/float64(bound), al, bound)
		}
		if al > bound {
			c.Trace("value %v", v)
			c.Fail("decoding %d bytes into a new message allocates %d bytes each time, allowance %d", len(in), al, bound)
		}
		c.Eval()
		c.Nontrivial(t.String(), "tight", in)
	}
	c.Cover("input:valid, exact allowance")
}

var debugMany = os.Getenv("DEBUG_MANY") != ""

func uvarintLen(b []byte) (uint64, int) {
	var v uint64
	for i, x := range b {
		v |= uint64(x&0x7f) << uint(7*i)
		if x < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

// nest wraps an empty Rec in depth levels through the given edge fields.
func nest(depth int, edge func(i int) int) []byte {
	// built back to front
	size := depth*14 + 16
	buf := make([]byte, size)
	at := size
	put := func(x []byte) { at -= len(x); copy(buf[at:], x) }
	n := 0
	for i := 0; i < depth; i++ {
		switch edge(i) {
		case 2:
			h := vf.PutVarint([]byte{2<<3 | 2}, uint64(n))
			put(h)
			n += len(h)
		case 3:
			h := vf.PutVarint([]byte{3<<3 | 2}, uint64(n))
			put(h)
			n += len(h)
		case 4:
			h := vf.PutVarint([]byte{2<<3 | 2}, uint64(n))
			put(h)
			n += len(h)
			h = vf.PutVarint([]byte{4<<3 | 2}, uint64(n))
			put(h)
			n += len(h)
		}
	}
	return buf[at:]
}

// text turns an error into text: at a cost in proportion to the input.
func text(c *Ctx, err error, n int) {
	a0, t0 := totalAlloc(), cpuNanos()
	s := err.Error()
	a1, t1 := totalAlloc(), cpuNanos()
	if bound := uint64(64<<10 + 2000*n); a1-a0 > bound {
		c.Fail("describing the error of decoding %d bytes, in %d bytes, allocated %d bytes (allowance %d)", n, len(s), a1-a0, bound)
	}
	if t1-t0 > 2e9 {
		c.Fail("describing the error of decoding %d bytes, in %d bytes, took %d ms", n, len(s), (t1-t0)/1e6)
	}
	c.Eval()
}

// c06deep decodes deeply nested input of a recursive type. Depth 10000 is what the
// official implementations accept; the last case goes far beyond that.
func c06deep(c *Ctx) {
	t := reflect.TypeOf(fam.Rec{})
	depth := []int{100, 1000, 10000, 10000, 10000, 10000, 3000000}[c.Case]
	edge := func(i int) int { return 2 }
	switch c.Case {
	case 3:
		edge = func(i int) int { return 3 }
	case 4:
		edge = func(i int) int { return 4 }
	case 5:
		edge = func(i int) int { return 2 + c.R.Intn(3) }
	}
	b := nest(depth, edge)
	c.Trace("%d bytes nested %d deep", len(b), depth)
	p := reflect.New(t)
	err := vf.Unmarshal(b, p.Interface())
	c.Trace("error %v", err)
	if c.Case < 6 {
		if err != nil {
			c.Fail("input nested %d deep is rejected: %v", depth, err)
		}
		if out := vf.MustMarshal(p.Interface()); c.Case == 0 && len(out) == 0 {
			c.Fail("nested message lost")
		}
		c.Eval()
	}
	// damage at the bottom must be reported through all levels, without more work
	for k := 0; k < 3 && c.Case < 6; k++ {
		bad := append([]byte(nil), b...)
		switch k {
		case 0:
			bad = bad[:len(bad)-1]
		case 1:
			bad[len(bad)-2], bad[len(bad)-1] = 1<<3, 0x80 // a varint that ends too early
		case 2:
			bad[len(bad)-2] |= 7 // no such wire type
		}
		q := reflect.New(t)
		var err error
		a0, t0 := totalAlloc(), cpuNanos()
		err = vf.Unmarshal(bad, q.Interface())
		a1, t1 := totalAlloc(), cpuNanos()
		if err == nil {
			c.Fail("damage at the bottom of %d levels is not reported", depth)
		}
		if bound := uint64(1<<20 + depth*5000); a1-a0 > bound {
			c.Fail("reporting damage at the bottom of %d levels allocated %d bytes (allowance %d)", depth, a1-a0, bound)
		}
		if t1-t0 > 2e9 {
			c.Fail("reporting damage at the bottom of %d levels took %d ms", depth, (t1-t0)/1e6)
		}
		c.Eval()
		text(c, err, len(bad))
	}
	c.Cover("deep")
	c.Nontrivial(depth, c.Case)
}

// C07: malformed input is reported.
func c07(c *Ctx) {
	t := c.normalType()
	for i := 0; i < 4; i++ {
		v := c.value(t)
		c.Trace("value %v", v)
		b := vf.EncodeVariant(c.R, v, &vf.EncOpt{Shuffle: true, Packed: true, Unknown: 8, LongVar: c.Chance(30), MapForms: c.Chance(30)})
		if i == 0 && len(b) <= 1500 {
			for n := 0; n <= len(b); n++ {
				verdict(c, t, b[:n], "cut")
			}
			c.Cover("cut:every position")
		}
		for n := 0; n < 25; n++ {
			bad, what := vf.Malform(c.R, t, b)
			verdict(c, t, bad, what)
			c.Cover("damage:" + damageKind(what))
		}
		c.Sample("%v %s", t, hx(b))
		c.trace = c.trace[:1]
	}
}

// damageKind shortens the description of a damage for counting.
func damageKind(what string) string {
	p := strings.Split(what, ": ")
	k := p[len(p)-1]
	if len(p) > 1 {
		k += ", inside " + map[string]string{"nested": "a message", "in map entry": "a map entry"}[p[len(p)-2]]
	}
	return k
}

// verdict compares what the library says about an input with the reference decoder.
func verdict(c *Ctx, t *vf.Msg, b []byte, what string) {
	ref, prob := vf.Decode(t, b)
	if prob != nil && prob.Class == vf.Unspecified {
		c.Cover("verdict:unspecified")
		return
	}
	p := vf.New(t)
	err := vf.Unmarshal(b, p.Interface())
	c.Eval()
	c.trace = append(c.trace, "input ("+what+") "+hx(b))
	switch {
	case prob == nil && err != nil:
		c.Fail("well-formed input is reported as malformed: %v", err)
	case prob == nil:
		if d := vf.Diff(ref, vf.Read(t, p)); d != "" {
			c.Fail("well-formed input is misread: %s", d)
		}
		c.Cover("verdict:well-formed")
	case err == nil:
		c.Fail("malformed input is accepted: %v", prob)
	default:
		c.Cover("verdict:" + prob.Class.String())
		if prob.Class == vf.Trunc && !errors.Is(err, io.ErrUnexpectedEOF) {
			c.Fail("input that ends too early is not reported as io.ErrUnexpectedEOF: %v (%v)", err, prob)
		}
		var fe *proto.UnmarshalFieldError
		if prob.HasTag {
			if !errors.As(err, &fe) {
				c.Fail("the error names no field: %v, want field %d", err, prob.Num)
			}
			if uint64(fe.FieldNumber) != prob.Num || fe.WireType != prob.WT {
				c.Fail("the error names field %d wire type %d, the outermost field is %d wire type %d", fe.FieldNumber, fe.WireType, prob.Num, prob.WT)
			}
			if prob.Depth > 0 {
				c.Cover("verdict:nested")
			}
		}
		c.Nontrivial(t.String(), b)
	}
	c.trace = c.trace[:len(c.trace)-1]
}
