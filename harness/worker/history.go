package main

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"verif/fam"
	"verif/vf"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	props["C10"] = prop{run: c10}
	props["C11"] = prop{run: c11}
	props["C11flood"] = prop{run: c11flood}
	props["C17"] = prop{run: c17}
}

// ---- types the library does not support ----

// rejectedType makes a struct type with a field the library has no codec for,
// among fields that refer to the given supported types.
func rejectedType(r *rand.Rand, subs []*vf.Msg) reflect.Type {
	bads := []struct {
		t   reflect.Type
		tag string
	}{
		{reflect.TypeOf(0), "varint"}, {reflect.TypeOf(uint(0)), "varint"}, {reflect.TypeOf(int8(0)), "varint"},
		{reflect.TypeOf(uint16(0)), "varint"}, {reflect.TypeOf((chan int)(nil)), "bytes"}, {reflect.TypeOf(func() {}), "bytes"},
		{reflect.TypeOf((*any)(nil)).Elem(), "bytes"}, {reflect.TypeOf([]int{}), "varint"}, {reflect.TypeOf([4]byte{}), "bytes"},
		{reflect.TypeOf(complex64(0)), "fixed64"}, {reflect.TypeOf(map[string]int{}), "map"}, {reflect.TypeOf(map[string]any{}), "map"},
		{reflect.TypeOf(""), "text"}, {reflect.TypeOf(int32(0)), "varint,x"}, {reflect.TypeOf(int32(0)), "group"},
		{reflect.TypeOf([]any{}), "bytes"}, {reflect.TypeOf(map[string][]int32{}), "map"},
	}
	n := 1 + r.Intn(4)
	at := r.Intn(n + 1)
	var sf []reflect.StructField
	for i := 0; i <= n; i++ {
		name := fmt.Sprintf("F%d", i)
		if i == at {
			b := bads[r.Intn(len(bads))]
			tag := fmt.Sprintf(`protobuf:"%s,%d,opt"`, b.tag, i+1)
			switch b.tag {
			case "map":
				tag = fmt.Sprintf(`protobuf:"bytes,%d,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`, i+1)
			case "varint,x":
				tag = `protobuf:"varint,x,opt"`
			}
			sf = append(sf, reflect.StructField{Name: name, Type: b.t, Tag: reflect.StructTag(tag)})
			continue
		}
		s := subs[r.Intn(len(subs))]
		t := reflect.PtrTo(s.Go)
		switch r.Intn(4) {
		case 0, 1:
			sf = append(sf, reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,opt"`, i+1))})
		case 2:
			sf = append(sf, reflect.StructField{Name: name, Type: reflect.SliceOf(t), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,rep"`, i+1))})
		case 3:
			sf = append(sf, reflect.StructField{Name: name, Type: reflect.MapOf(reflect.TypeOf(int32(0)), t),
				Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"bytes,%d,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`, i+1))})
		}
	}
	rejectCount++
	sf = append(sf, reflect.StructField{Name: fmt.Sprintf("Rejected%d", rejectCount), Type: reflect.TypeOf(uint64(0))})
	t := reflect.StructOf(sf)
	if r.Intn(3) == 0 { // one level up
		rejectCount++
		t = reflect.StructOf([]reflect.StructField{
			{Name: "A", Type: reflect.PtrTo(subs[0].Go), Tag: `protobuf:"bytes,1,opt"`},
			{Name: "B", Type: reflect.PtrTo(t), Tag: `protobuf:"bytes,2,opt"`},
			{Name: "C", Type: reflect.PtrTo(subs[len(subs)-1].Go), Tag: `protobuf:"bytes,3,opt"`},
			{Name: fmt.Sprintf("Rejected%d", rejectCount), Type: reflect.TypeOf(uint64(0))},
		})
	}
	return t
}

// brokenTwin makes a struct type that resembles t, except that something about one
// of its fields is unsupported.
func brokenTwin(r *rand.Rand, t *vf.Msg) reflect.Type {
	var sf []reflect.StructField
	at := -1
	if len(t.Fields) > 0 {
		at = r.Intn(len(t.Fields))
	}
	for i, f := range t.Fields {
		if r.Intn(3) == 0 && i != at {
			continue
		}
		g := t.Go.Field(f.GoIndex)
		s := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: g.Type, Tag: g.Tag}
		if i == at {
			p := strings.Split(g.Tag.Get("protobuf"), ",")
			old := g.Tag.Get("protobuf")
			if len(p) < 3 {
				p = append(p, "")
			}
			switch r.Intn(6) {
			case 0:
				p[2] = "maybe"
			case 1:
				p[2] = p[2] + "x"
			case 2:
				p[2] = " " + p[2]
			case 3:
				p[1] = p[1] + "x"
			case 4:
				p[0] = p[0] + "x"
			case 5:
				s.Type = reflect.TypeOf((*any)(nil)).Elem()
			}
			s.Tag = reflect.StructTag(strings.Replace(string(g.Tag), strconv.Quote(old), strconv.Quote(strings.Join(p, ",")), 1))
		}
		sf = append(sf, s)
	}
	rejectCount++
	sf = append(sf, reflect.StructField{Name: fmt.Sprintf("Rejected%d", rejectCount), Type: reflect.TypeOf(uint64(0))})
	return reflect.StructOf(sf)
}

var rejectCount int

// tryRejected calls the library with a type it does not support and says how that
// went; panics are recovered.
func tryRejected(t reflect.Type, how int) (outcome string) {
	defer func() {
		if e := recover(); e != nil {
			outcome = "panic"
		}
	}()
	p := reflect.New(t).Interface()
	var err error
	switch how {
	case 0:
		_, err = proto.Marshal(p)
	case 1:
		proto.Size(p)
	default:
		err = proto.Unmarshal([]byte{0xf8, 0x7f, 1}, p)
	}
	if err != nil {
		return "error"
	}
	return "ok"
}

// ---- C10 ----

type cop struct {
	kind   string
	t      *vf.Msg
	v      *vf.MVal
	p      reflect.Value
	in     []byte
	want   *vf.MVal // expected content after a decode
	bad    bool
	rej    reflect.Type
	out    []byte
	n      int
	err    error
	crash  string
	gorout int
	how    string
}

func (o *cop) do() {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(vf.Violation); ok {
				o.crash = v.Msg
			} else {
				o.crash = fmt.Sprint(e)
			}
		}
	}()
	switch o.kind {
	case "marshal", "marshal shared":
		o.out, o.err = vf.Marshal(o.p.Interface())
	case "size", "size shared":
		o.n = vf.Size(o.p.Interface())
	case "unmarshal", "unmarshal malformed":
		o.err = vf.Unmarshal(o.in, o.p.Interface())
	case "rejected type":
		o.how = tryRejected(o.rej, o.n)
	}
}

// c10 lets many goroutines make their first calls for a group of related types at
// the same moment.
func c10(c *Ctx) {
	var types []*vf.Msg
	if c.Case%12 == 1 {
		i := c.R.Intn(len(fam.Twins) - 4)
		for _, t := range fam.Twins[i : i+4] {
			types = append(types, fromGo(t))
		}
		c.Cover("group:look-alike types")
	} else if c.Case%12 == 5 {
		// types with many fields take long to prepare
		for n := 1 + c.R.Intn(3); n > 0; n-- {
			var fields []*vf.Field
			for k := []int{65, 130, 260, 600, 1500}[c.R.Intn(5)]; k > 0; k-- {
				subs := types
				if k > 3 {
					subs = nil // the name of a type holds the names of all those in it
				}
				fields = append(fields, vf.GenField(c.R, subs, &vf.GenOpt{}))
			}
			types = append(types, vf.NewMsg(c.R, fmt.Sprintf("Wide%d", n), fields, false))
		}
		c.Cover("group:wide types")
	} else if c.Case%3 != 2 {
		for _, t := range fam.Families[c.Case%len(fam.Families)] {
			types = append(types, fromGo(t))
		}
		c.Cover("group:recursive family")
	} else {
		n := 2 + c.R.Intn(4)
		for i := 0; i < n; i++ {
			types = append(types, vf.Gen(c.R, &vf.GenOpt{MaxFields: 6, MaxSubs: 2, Subs: types}))
		}
		c.Cover("group:shared sub-types")
	}
	c.Trace("types %v", types)
	for _, t := range types {
		c.coverType(t)
	}
	long, longs := 0, 0
	if c.Chance(15) {
		long = 1 << (13 + c.R.Intn(6))
		longs = 1 + 1<<20/long
		c.Cover("group:long values")
	}
	small := func(t *vf.Msg) *vf.MVal {
		if longs > 0 && c.Chance(50) {
			longs--
			if v := c.longValue(t, long+c.R.Intn(long)); v != nil {
				return v
			}
		}
		b := 60
		return vf.GenM(c.R, t, &vf.ValOpt{MaxList: 4, MaxStr: 20, Fill: 70, Budget: &b, MaxDepth: 4})
	}
	shared := make([]*cop, len(types))
	for i, t := range types {
		v := small(t)
		shared[i] = &cop{t: t, v: v, p: c.build(v)}
	}
	G := []int{2, 4, 8, 16, 32, 150}[c.R.Intn(6)]
	if d, ok := vf.Dict.Count(c.R, 6, 2, 200); ok {
		G = d
	}
	if long > 0 && G > 16 {
		G = 8
	}
	runtime.GOMAXPROCS([]int{1, 2, 4, 8, 16}[c.R.Intn(5)])
	plans := make([][]*cop, G)
	var common reflect.Type // rejected by everyone at once
	if c.Chance(40) {
		common = rejectedType(c.R, types)
		c.Cover("group:with a rejected type for everyone")
	}
	for g := range plans {
		n := 2 + c.R.Intn(6)
		if common != nil && c.Chance(60) {
			plans[g] = append(plans[g], &cop{kind: "rejected type", t: types[0], gorout: g, rej: common, n: c.R.Intn(3)})
		}
		for k := 0; k < n; k++ {
			i := c.R.Intn(len(types))
			if k == 0 {
				i = (g + c.Case) % len(types)
			}
			t := types[i]
			o := &cop{t: t, gorout: g}
			switch r := c.R.Intn(20); {
			case r < 4:
				o.kind, o.v = "marshal", small(t)
				o.p = c.build(o.v)
			case r < 6:
				o.kind, o.v = "size", small(t)
				o.p = c.build(o.v)
			case r < 12:
				o.kind = "unmarshal"
				o.in = vf.EncodeVariant(c.R, small(t), &vf.EncOpt{Shuffle: true, MapForms: c.Chance(50), Packed: c.Chance(50), Repeat: c.Chance(30), Unknown: 3})
				o.p = vf.New(t)
				o.want, _ = vf.Decode(t, o.in)
			case r < 14:
				o.kind, o.bad = "unmarshal malformed", true
				o.in, _ = vf.Malform(c.R, t, vf.EncodeVariant(c.R, small(t), &vf.EncOpt{Shuffle: true}))
				o.p = vf.New(t)
			case r < 17:
				o.kind, o.v, o.p = "marshal shared", shared[i].v, shared[i].p
			case r < 19:
				o.kind, o.v, o.p = "size shared", shared[i].v, shared[i].p
			default:
				o.kind, o.rej, o.n = "rejected type", rejectedType(c.R, types), c.R.Intn(3)
			}
			plans[g] = append(plans[g], o)
			c.Cover("op:" + o.kind)
		}
	}
	c.Trace("%d goroutines, GOMAXPROCS %d", G, runtime.GOMAXPROCS(0))
	var ready, start int32
	var inflight, maxIn int32
	var wg sync.WaitGroup
	var mu sync.Mutex
	var log []string
	for g := range plans {
		wg.Add(1)
		go func(plan []*cop) {
			defer wg.Done()
			atomic.AddInt32(&ready, 1)
			for atomic.LoadInt32(&start) == 0 {
				runtime.Gosched()
			}
			if n := atomic.AddInt32(&inflight, 1); n > atomic.LoadInt32(&maxIn) {
				atomic.StoreInt32(&maxIn, n)
			}
			for _, o := range plan {
				o.do()
			}
			atomic.AddInt32(&inflight, -1)
			// no synchronisation between goroutines before this point
			mu.Lock()
			log = append(log, fmt.Sprint(plan[0].gorout))
			mu.Unlock()
		}(plans[g])
	}
	for int(atomic.LoadInt32(&ready)) < G {
		runtime.Gosched()
	}
	atomic.StoreInt32(&start, 1)
	wg.Wait()
	c.Cover(fmt.Sprintf("overlap:%d goroutines inside at once", maxIn))
	c.Nontrivial(fmt.Sprint(types), fmt.Sprint(log)) // completion order distinguishes interleavings
	c.Trace("completion order %v", log)
	// judge every result against what the call gives alone
	for g, plan := range plans {
		for k, o := range plan {
			who := fmt.Sprintf("goroutine %d, call %d (%s of %s)", g, k, o.kind, o.t.Name)
			if o.crash != "" {
				c.Fail("%s: %s", who, o.crash)
			}
			c.Eval()
			switch o.kind {
			case "rejected type":
				if alone := tryRejected(o.rej, o.n); alone != o.how {
					c.Fail("%s: %s, alone %s (type %v)", who, o.how, alone, o.rej)
				}
			case "marshal", "marshal shared":
				if o.err != nil {
					c.Fail("%s failed: %v", who, o.err)
				}
				got, prob := vf.Decode(o.t, o.out)
				if prob != nil {
					c.Fail("%s: damaged encoding: %v (%s)", who, prob, hx(o.out))
				}
				if d := vf.Diff(o.v, got); d != "" {
					c.Fail("%s: encoding holds another value: %s", who, d)
				}
				if alone := vf.MustMarshal(o.p.Interface()); len(alone) != len(o.out) || canonBytes(o.t, alone) != canonBytes(o.t, o.out) {
					c.Fail("%s: encoded as %s, alone as %s", who, hx(o.out), hx(alone))
				}
			case "size", "size shared":
				if alone := vf.Size(o.p.Interface()); alone != o.n || len(vf.MustMarshal(o.p.Interface())) != alone {
					c.Fail("%s: size %d, alone %d", who, o.n, alone)
				}
			case "unmarshal", "unmarshal malformed":
				q := vf.New(o.t)
				alone := vf.Unmarshal(o.in, q.Interface())
				if (alone == nil) != (o.err == nil) {
					c.Fail("%s: error %v, alone %v (input %s)", who, o.err, alone, hx(o.in))
				}
				var e1, e2 *proto.UnmarshalFieldError
				if errors.As(o.err, &e1) != errors.As(alone, &e2) || e1 != nil && (e1.FieldNumber != e2.FieldNumber || e1.WireType != e2.WireType) {
					c.Fail("%s: error %v, alone %v (input %s)", who, o.err, alone, hx(o.in))
				}
				got := vf.Read(o.t, o.p)
				if d := vf.Diff(vf.Read(o.t, q), got); d != "" {
					c.Fail("%s: decoded another message than alone: %s (input %s)", who, d, hx(o.in))
				}
				if o.want != nil {
					if o.err != nil {
						c.Fail("%s failed: %v", who, o.err)
					}
					if d := vf.Diff(o.want, got); d != "" {
						c.Fail("%s: decoded wrongly: %s (input %s)", who, d, hx(o.in))
					}
				}
			}
		}
	}
	if c.Case%4 == 0 || G == 150 || long > 0 {
		c.storm(plans)
	}
	for i, s := range shared {
		if d := vf.Diff(s.v, vf.Read(types[i], s.p)); d != "" {
			c.Fail("a shared message was changed: %s", d)
		}
	}
	c.Sample("%d goroutines on %v, completion order %v", G, types, log)
}

// storm repeats the calls of all goroutines, now that the types are known, many times in
// short bursts. Each result is compared with that of the same call alone.
func (c *Ctx) storm(plans [][]*cop) {
	weight := 1
	for _, plan := range plans {
		for _, o := range plan {
			if o.p.IsValid() {
				weight = max(weight, (len(o.in)+vf.Size(o.p.Interface()))/300)
			}
		}
	}
	rounds := max(8, 4000/len(plans)/weight)
	var wg sync.WaitGroup
	fails := make([]string, len(plans))
	for g, plan := range plans {
		var o *cop
		for _, x := range plan {
			if x.kind != "rejected type" && (o == nil || x.kind == "unmarshal") {
				o = x
			}
		}
		if o == nil {
			continue
		}
		var alone string
		var raw []byte
		var err error
		var m reflect.Value
		if o.in != nil {
			m = vf.New(o.t)
			err = vf.Unmarshal(o.in, m.Interface())
		} else {
			m = o.p
		}
		raw = vf.MustMarshal(m.Interface())
		alone = canonBytes(o.t, raw)
		size := vf.Size(m.Interface())
		wg.Add(1)
		go func(g int, o *cop) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fails[g] = fmt.Sprint("panics: ", e)
				}
			}()
			for i := 0; i < rounds && fails[g] == ""; i += 8 {
				var outs [8][]byte
				var targets [8]interface{}
				if o.in != nil {
					for k := range targets {
						targets[k] = vf.New(o.t).Interface()
					}
					for k := range targets {
						if e := vf.Unmarshal(o.in, targets[k]); (e == nil) != (err == nil) {
							fails[g] = fmt.Sprintf("gives the error %v, alone %v", e, err)
						}
					}
				} else {
					for k := range targets {
						targets[k] = o.p.Interface()
					}
				}
				for k := range outs {
					outs[k] = vf.MustMarshal(targets[k])
				}
				if n := vf.Size(targets[i/8%8]); n != size {
					fails[g] = fmt.Sprintf("gives the size %d, alone %d", n, size)
				}
				for k := range outs {
					if bytes.Equal(outs[k], raw) {
						continue
					}
					if s := canonBytes(o.t, outs[k]); s != alone {
						fails[g] = fmt.Sprintf("gives %.3000q, alone %.3000q", s, alone)
					}
				}
			}
		}(g, o)
	}
	wg.Wait()
	for g, f := range fails {
		if f != "" {
			c.Fail("goroutine %d of %d that do the same again and again: %s", g, len(plans), f)
		}
	}
	c.Cover("storm")
	c.Eval()
}

// canonBytes describes an encoding up to the order of map entries.
func canonBytes(t *vf.Msg, b []byte) string { return string(canonAppend(nil, t, b)) }

func canonAppend(out []byte, t *vf.Msg, b []byte) []byte {
	toks, ok := vf.Tokens(b)
	if !ok {
		return append(append(out, "garbage "...), hx(b)...)
	}
	head := func(num uint64, wt int) {
		out = strconv.AppendUint(out, num, 10)
		out = append(out, '/', byte('0'+wt))
	}
	plain := func(u uint64, data []byte) {
		out = append(out, ':')
		out = strconv.AppendUint(out, u, 10)
		out = append(out, ':')
		out = strconv.AppendInt(out, int64(len(data)), 10)
		out = append(out, ':')
		out = append(append(out, data...), ';')
	}
	for i := 0; i < len(toks); {
		k := toks[i]
		j := t.Index(k.Num)
		if j < 0 || t.Fields[j].Kind != vf.Message && t.Fields[j].Card != vf.Map {
			head(uint64(k.Num), int(k.WT))
			plain(k.U, k.Data)
			i++
			continue
		}
		f := t.Fields[j]
		if f.Card != vf.Map {
			head(uint64(k.Num), int(k.WT))
			out = append(canonAppend(append(out, '{'), f.Sub, k.Data), '}', ';')
			i++
			continue
		}
		var entries []string
		for ; i < len(toks) && toks[i].Num == k.Num; i++ {
			et, ok := vf.Tokens(toks[i].Data)
			keep := out
			out = nil
			out = strconv.AppendBool(append(out, byte('0'+toks[i].WT)), ok)
			for _, e := range et {
				head(uint64(e.Num), int(e.WT))
				if e.Num == 2 && f.Kind == vf.Message {
					out = append(canonAppend(append(out, '{'), f.Sub, e.Data), '}')
				} else {
					plain(e.U, e.Data)
				}
			}
			entries = append(entries, string(out))
			out = keep
		}
		sort.Strings(entries)
		head(uint64(k.Num), 9)
		for _, e := range entries {
			out = append(append(out, e...), '|')
		}
	}
	return out
}

// ---- C11 ----

var pool []*vf.Msg                 // types used so far, by sub-type sharing connected
var rejected []reflect.Type        // types the library refused
var rejectedHow []string           // and how
var kept []*mem                    // messages made earlier in this process
var firstBytes = map[*mem]string{} // what they encoded to then

// c11 performs one more chapter of a long history; every call is judged without
// regard to the history.
func c11(c *Ctx) {
	chapter(c)
	// the probe depends on the case alone: same in every history
	c.R = rand.New(rand.NewSource(caseSeed("probe", c.Seed, c.Case)))
	c.probe()
}

func chapter(c *Ctx) {
	newType := func() *vf.Msg {
		var subs []*vf.Msg
		for i := 0; i < 3 && len(pool) > 0; i++ {
			subs = append(subs, pool[c.R.Intn(len(pool))])
		}
		if c.Chance(20) {
			subs = append(subs, famType(c.R))
		}
		t := vf.Gen(c.R, &vf.GenOpt{MaxFields: 6, MaxSubs: 2, Canary: true, Subs: subs})
		// sub-types may be used before the type that contains them, or after
		all := t.All()
		for i := 0; i < 2; i++ {
			if s := all[c.R.Intn(len(all))]; len(s.Go.String()) < 1<<14 {
				pool = append(pool, s)
			}
		}
		if len(t.Go.String()) < 1<<14 { // its name holds those of all types in it, in turn
			pool = append(pool, t)
		}
		c.coverType(t)
		return t
	}
	for len(pool) < 4 {
		newType()
	}
	steps := 6 + c.R.Intn(10)
	for s := 0; s < steps; s++ {
		var t *vf.Msg
		switch k := c.R.Intn(10); {
		case k < 3:
			t = newType()
		case k < 5:
			t = famType(c.R)
		default:
			t = pool[c.R.Intn(len(pool))]
		}
		if c.Case%64 == 5 && s == 0 {
			c.bulk(t)
		}
		switch k := c.R.Intn(16); {
		case k < 3: // a rejected type that touches types not used yet
			subs := []*vf.Msg{t, pool[c.R.Intn(len(pool))], famType(c.R)}
			rt := rejectedType(c.R, subs)
			if c.Chance(30) {
				rt = brokenTwin(c.R, t)
			}
			how := c.R.Intn(3)
			o := tryRejected(rt, how)
			c.Trace("rejected type %v (call %d): %s", rt, how, o)
			if o2 := tryRejected(rt, how); o2 != o {
				c.Fail("a call on %v gave %s first and %s then", rt, o, o2)
			}
			rejected = append(rejected, rt)
			rejectedHow = append(rejectedHow, fmt.Sprintf("%d %s", how, o))
			c.Cover("step:rejected type, " + o)
			c.Eval()
		case k < 4 && len(rejected) > 0: // an old one again
			i := c.R.Intn(len(rejected))
			var how int
			var o string
			fmt.Sscan(rejectedHow[i], &how, &o)
			if o2 := tryRejected(rejected[i], how); o2 != o {
				c.Fail("a call on %v gave %s first and %s later", rejected[i], o, o2)
			}
			c.Cover("step:rejected type again")
			c.Eval()
		case k < 6: // failed decode
			bad, what := vf.Malform(c.R, t, vf.EncodeVariant(c.R, c.value(t), &vf.EncOpt{Shuffle: true, Packed: c.Chance(50), MapForms: c.Chance(50)}))
			c.Trace("malformed decode (%s) of %v: %s", what, t, hx(bad))
			verdict(c, t, bad, what)
			c.Cover("step:failed decode")
		case k < 9: // encode
			v := c.value(t)
			p := c.build(v)
			c.Trace("encode %v %v", t, v)
			sizeCheck(c, v, p)
			c.Cover("step:encode")
			c.Nontrivial(t.String(), v.String())
		case k < 14: // decode
			v := c.value(t)
			b := vf.EncodeVariant(c.R, v, &vf.EncOpt{Shuffle: c.Chance(50), Packed: c.Chance(50), MapForms: c.Chance(60), Repeat: c.Chance(30), Unknown: 4})
			c.Trace("decode %v %s", t, hx(b))
			q := vf.New(t)
			if err := vf.Unmarshal(b, q.Interface()); err != nil {
				c.Fail("decoding failed: %v", err)
			}
			if d := vf.Diff(v, vf.Read(t, q)); d != "" {
				c.Fail("decoded wrongly: %s", d)
			}
			c.Cover("step:decode")
			c.Eval()
			c.Nontrivial(t.String(), b)
			if len(kept) < 60 || c.Chance(20) {
				m := &mem{v: v, p: q}
				firstBytes[m] = canonBytes(t, vf.MustMarshal(q.Interface()))
				if len(kept) < 60 {
					kept = append(kept, m)
				} else {
					i := c.R.Intn(len(kept))
					delete(firstBytes, kept[i])
					kept[i] = m
				}
			}
		case k < 15 && len(kept) > 0: // an earlier message again
			m := kept[c.R.Intn(len(kept))]
			if got := canonBytes(m.v.T, vf.MustMarshal(m.p.Interface())); got != firstBytes[m] {
				c.Fail("the same message of type %v was encoded as %s and is now encoded as %s", m.v.T, firstBytes[m], got)
			}
			c.Cover("step:encode again later")
			c.Eval()
		default:
			runtime.GC()
			c.Cover("step:collect garbage")
		}
	}
	c.Sample("%v", c.trace)
}

// c11flood uses very many types, more than 2^16, one after the other, and the earlier ones
// again now and then.
func c11flood(c *Ctx) {
	most := 140000
	if c.Tier == "thorough" {
		most = 600000
	}
	seen := map[reflect.Type]bool{}
	var leaves, some []*vf.Msg
	o := vf.DefaultVal(c.R)
	use := func(t *vf.Msg) {
		n := 60
		o.Budget, o.MaxStr, o.MaxList, o.Fill, o.MaxDepth = &n, 6, 2, 90, 2
		v := vf.GenM(c.R, t, o)
		c.trace = c.trace[:0]
		c.Trace("after %d types: %v %v", len(seen), t, v)
		q := vf.New(t)
		if err := vf.Unmarshal(vf.Encode(v), q.Interface()); err != nil {
			c.Fail("decoding failed: %v", err)
		}
		if d := vf.Diff(v, vf.Read(t, q)); d != "" {
			c.Fail("decoded wrongly: %s", d)
		}
		b := vf.MustMarshal(q.Interface())
		back, prob := vf.Decode(t, b)
		if prob != nil || len(b) != vf.Size(q.Interface()) {
			c.Fail("encoded wrongly: %s, %v, size %d", hx(b), prob, vf.Size(q.Interface()))
		}
		if d := vf.Diff(v, back); d != "" {
			c.Fail("encoded wrongly: %s", d)
		}
		c.Eval()
	}
	for len(seen) < most {
		g := &vf.GenOpt{MaxFields: 2}
		if len(leaves) == 200 && c.Chance(50) {
			g.Subs = []*vf.Msg{leaves[c.R.Intn(200)]}
		}
		t := vf.Gen(c.R, g)
		if seen[t.Go] {
			continue
		}
		seen[t.Go] = true
		use(t)
		if len(leaves) < 200 {
			leaves = append(leaves, t)
		}
		switch {
		case len(some) < 500:
			some = append(some, t)
		case c.R.Intn(200) == 0:
			some[c.R.Intn(len(some))] = t
		}
		if c.R.Intn(50) == 0 {
			use(some[c.R.Intn(len(some))])
		}
		if c.R.Intn(300) == 0 {
			rt := rejectedType(c.R, some[len(some)-2:])
			if o := tryRejected(rt, c.R.Intn(3)); o == "" {
				c.Fail("a call on %v gave nothing", rt)
			}
		}
	}
	for _, t := range some {
		use(t)
	}
	c.Cover(fmt.Sprintf("history:%d types in one process", most))
	c.Nontrivial("flood", len(seen))
}

// bulk makes one call very often: what counts calls, or takes something with each of them
// that it does not give back, runs out then. Every result is compared with the first one.
func (c *Ctx) bulk(t *vf.Msg) {
	rec := fromGo(reflect.TypeOf(fam.Rec{}))
	if c.Chance(50) {
		t = rec
	}
	v := c.value(t)
	good := vf.Encode(v)
	bad, what := vf.Malform(c.R, t, vf.Encode(c.value(t)))
	if c.Chance(50) { // damage deep inside
		t, bad, what = rec, nest(3+c.R.Intn(20), func(int) int { return 2 + c.R.Intn(3) }), "nested"
		bad[len(bad)-2], bad[len(bad)-1] = 1<<3, 0x80 // a varint that ends too early
	}
	p := c.build(v)
	q := vf.New(t)
	n := 70000
	if len(good) > 1000 || len(bad) > 1000 {
		n = 7000
	}
	how := c.R.Intn(5)
	c.Trace("%d times call %d (%s %s) with %v", n, how, what, hx(bad), t)
	first, size := vf.MustMarshal(p.Interface()), vf.Size(p.Interface())
	lenient := vf.Unmarshal(bad, vf.New(t).Interface()) == nil
	same := true // the order of map entries is not in question
	for i := 0; i < 9; i++ {
		same = same && string(first) == string(vf.MustMarshal(p.Interface()))
	}
	encoding := func(i int, of string, b []byte) {
		if len(b) != len(first) || same && string(b) != string(first) && canonBytes(v.T, b) != canonBytes(v.T, first) {
			c.Fail("the %d-th encoding of %s is %s, the first %s", i, of, hx(b), hx(first))
		}
	}
	for i := 0; i < n; i++ {
		switch how {
		case 0:
			if err := vf.Unmarshal(bad, q.Interface()); (err == nil) != lenient {
				c.Fail("the %d-th decoding of malformed input gives %v, unlike the first", i, err)
			}
			if i%64 == 0 {
				q = vf.New(t)
			}
		case 1:
			q := vf.New(v.T).Interface()
			if err := vf.Unmarshal(good, q); err != nil {
				c.Fail("the %d-th decoding of the same bytes fails: %v", i, err)
			}
			encoding(i, "what was decoded from the same bytes", vf.MustMarshal(q))
		case 2:
			encoding(i, "the same message", vf.MustMarshal(p.Interface()))
		case 3:
			if n := vf.Size(p.Interface()); n != size || n != len(first) {
				c.Fail("the %d-th size of the same message is %d, the first %d", i, n, size)
			}
		case 4:
			if vf.Unmarshal(bad, nil) == nil || vf.Unmarshal(bad, "no message") == nil {
				c.Fail("the %d-th decoding into nothing succeeds", i)
			}
			if _, err := vf.Marshal(i); err == nil {
				c.Fail("the %d-th encoding of a number succeeds", i)
			}
		}
	}
	c.Cover(fmt.Sprintf("step:one call %d times", n))
	c.Eval()
}

// probe makes calls that depend only on the case and reports their results, which
// must be the same after any history.
func (c *Ctx) probe() {
	for i := 0; i < 2; i++ {
		var t *vf.Msg
		if i == 0 {
			t = vf.Gen(c.R, &vf.GenOpt{MaxFields: 6, MaxSubs: 2})
		} else {
			t = famType(c.R)
		}
		c.Trace("probe type %v", t)
		rt, how := brokenTwin(c.R, t), c.R.Intn(3)
		o := ""
		if reversed { // one history sees the broken type before the type it resembles, the other after
			o = tryRejected(rt, how)
		}
		c.report(t)
		if !reversed {
			o = tryRejected(rt, how)
		}
		c.Cover("probe:broken twin, " + o)
		c.Digest("%d broken twin %s", c.Case, o)
	}
	c.brokenFamily()
}

var brokenOutcome = map[string]string{} // what the types of fam.Broken gave before

// brokenFamily uses types that refer to each other and to an unsupported one, in one
// order in one history and in the other in the other.
func (c *Ctx) brokenFamily() {
	f := fam.Broken[c.Case%len(fam.Broken)]
	n := len(f.Types)
	outcome := make([]string, n)
	order, how := c.R.Perm(n), c.R.Intn(3)
	leaf := c.R.Intn(n + 1)
	for k := 0; k <= n; k++ {
		if k == leaf {
			c.report(fromGo(f.Leaf))
		}
		if k == n {
			break
		}
		i := order[k]
		if reversed {
			i = order[n-1-k]
		}
		o := tryRejected(f.Types[i], how)
		c.Trace("%v (call %d): %s", f.Types[i], how, o)
		key := fmt.Sprint(f.Types[i], how)
		if o2, ok := brokenOutcome[key]; ok && o2 != o {
			c.Fail("a call on %v gave %s first and %s later", f.Types[i], o2, o)
		}
		brokenOutcome[key] = o
		outcome[i] = o
		c.Cover("probe:type of a broken family, " + o)
		c.Eval()
	}
	c.Digest("%d broken family %v", c.Case, outcome)
}

// report makes calls on type t and puts the results into the digest.
func (c *Ctx) report(t *vf.Msg) {
	v := c.value(t)
	p := v.ToGo()
	b := vf.MustMarshal(p.Interface())
	h := sha256.New()
	fmt.Fprintf(h, "%s %d", canonBytes(t, b), vf.Size(p.Interface()))
	in := vf.EncodeVariant(c.R, v, &vf.EncOpt{Shuffle: true, MapForms: true, Packed: true, Repeat: true, Unknown: 12})
	for i := 0; i < 4; i++ {
		if c.Chance(30) {
			in = vf.WideTag(c.R, t, in)
			c.Cover("report:field number of more than 32 bits")
		}
		q := vf.New(t)
		err := vf.Unmarshal(in, q.Interface())
		var fe *proto.UnmarshalFieldError
		if errors.As(err, &fe) {
			fmt.Fprintf(h, "field %d %d", uint32(fe.FieldNumber), fe.WireType) // an int has 32 bits on some platforms
		}
		fmt.Fprintf(h, "%v %s", err == nil, canonBytes(t, vf.Encode(vf.Read(t, q))))
		in, _ = vf.Malform(c.R, t, in)
	}
	c.Eval()
	c.Digest("%d %x %d bytes", c.Case, h.Sum(nil)[:8], len(b))
}

// ---- C17 ----

// bigMap fills a map of every key and value type far past every growth step.
func (c *Ctx) bigMap() {
	keys := vf.MapKeyKinds()
	k := keys[c.Case/4%len(keys)]
	kind := vf.Kind(c.R.Intn(int(vf.Message) + 1))
	f := &vf.Field{Num: 1 + c.R.Int31n(200), Kind: kind, Card: vf.Map, Key: k}
	if kind == vf.Message {
		f.Sub = vf.Gen(c.R, &vf.GenOpt{MaxFields: 3})
	}
	t := vf.NewMsg(c.R, "Big", []*vf.Field{f, {Kind: vf.Int32}}, false)
	n := []int{0, 1, 2, 7, 8, 9, 13, 14, 15, 27, 100, 900, 1100, 3000}[c.R.Intn(14)]
	v := vf.NewM(t)
	seen := map[vf.Val]bool{}
	bud := 1 << 20
	o := &vf.ValOpt{MaxList: 2, MaxStr: 12, Fill: 60, Budget: &bud, MaxDepth: 2}
	for tries := 0; len(v.F[0].KV) < n && tries < 4*n+10; tries++ {
		kv := vf.GenVal(c.R, k, nil, o)
		if c.Chance(80) { // boundary values run out quickly
			kv = vf.Val{U: vf.Canon(k, c.R.Uint64())}
			if k == vf.String {
				kv = vf.Val{S: fmt.Sprintf("key %d", c.R.Int63())}
			}
		}
		if seen[kv] {
			continue
		}
		seen[kv] = true
		v.F[0].KV = append(v.F[0].KV, vf.KV{K: kv, V: vf.GenVal(c.R, kind, f.Sub, o)})
	}
	c.Trace("big map %s of %d entries", f.Shape(), len(v.F[0].KV))
	c.Cover("map key:" + k.String())
	c.Cover("map value:" + kind.String())
	c.Cover(lenBucket(len(v.F[0].KV)) + " map entries")
	p := v.ToGo()
	b := vf.MustMarshal(p.Interface())
	if n := vf.Size(p.Interface()); n != len(b) {
		c.Fail("Size is %d, the encoding has %d bytes", n, len(b))
	}
	got, prob := vf.Decode(t, b)
	if prob != nil {
		c.Fail("map encoded wrongly: %v", prob)
	}
	if d := vf.Diff(v, got); d != "" {
		c.Fail("map encoded wrongly: %s", d)
	}
	c.Eval()
	// fill by decoding, in two portions, encode in between (the table may be growing)
	q := vf.New(t)
	model := vf.NewM(t)
	for i := 0; i < 2; i++ {
		part := vf.NewM(t)
		for _, e := range v.F[0].KV {
			if c.Chance(60) {
				part.F[0].KV = append(part.F[0].KV, e)
			}
		}
		in := vf.EncodeVariant(c.R, part, &vf.EncOpt{Shuffle: true, MapForms: c.Chance(50)})
		if err := vf.Unmarshal(in, q.Interface()); err != nil {
			c.Fail("filling a map failed: %v", err)
		}
		mergeBytes(t, model, in)
		if d := vf.Diff(model, vf.Read(t, q)); d != "" {
			c.Fail("map filled wrongly: %s", d)
		}
		out := vf.MustMarshal(q.Interface())
		back, prob := vf.Decode(t, out)
		if prob != nil {
			c.Fail("filled map encoded wrongly: %v", prob)
		}
		if d := vf.Diff(model, back); d != "" {
			c.Fail("filled map encoded wrongly: %s", d)
		}
		if toks, _ := vf.Tokens(out); len(toks) != len(model.F[0].KV) {
			c.Fail("a map of %d entries was encoded in %d records", len(model.F[0].KV), len(toks))
		}
		c.Eval()
	}
	h := sha256.Sum256([]byte(canonBytes(t, vf.MustMarshal(q.Interface()))))
	c.Digest("%d map %x", c.Case, h[:8])
	c.Nontrivial(t.String(), v.String())
}

// c17 runs the same operations everywhere and reports results for comparison.
func c17(c *Ctx) {
	switch c.Case % 4 {
	case 0:
		c.bigMap()
		return
	case 1:
		// a workload with its own oracle, on this toolchain
		w := []string{"C01", "C04", "C05", "C07", "C08", "C13"}[c.R.Intn(6)]
		c.Cover("workload:" + w)
		props[w].run(c)
		return
	}
	t := c.pickType(&vf.GenOpt{MaxFields: 8, MaxSubs: 3, Canary: true, Wide: true})
	c.Trace("type %v", t)
	c.coverType(t)
	for i := 0; i < 3; i++ {
		c.report(t)
	}
	c.Nontrivial(t.String(), fmt.Sprint(c.Case))
	c.Sample("%v", t)
}
