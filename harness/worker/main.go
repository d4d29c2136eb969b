// Command worker runs the monitored workloads. One process handles one shard of
// the deterministic case list of one property and writes what it observed as JSON.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/bits"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"

	"verif/fam"
	"verif/vf"

	"google.golang.org/protobuf/types/descriptorpb"
)

// Ctx is the context of one case.
type Ctx struct {
	R      *rand.Rand
	Case   int
	Seed   int64
	Tier   string
	out    *Out
	trace  []string
	hash   uint64
	nontri bool
}

// Out is what a worker reports.
type Out struct {
	Cases   int            `json:"cases"`
	Evals   int            `json:"evals"`
	Hashes  []uint64       `json:"hashes"`
	Cover   map[string]int `json:"cover"`
	Samples []string       `json:"samples"`
	Viol    *Viol          `json:"violation,omitempty"`
	Harness string         `json:"harness_error,omitempty"`
	Digest  []string       `json:"digest,omitempty"`
	Notes   []string       `json:"notes,omitempty"`
}

// Viol is a violation with what is needed to replay it.
type Viol struct {
	Case  int      `json:"case"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

func (c *Ctx) Cover(k string)            { c.out.Cover[k]++ }
func (c *Ctx) CoverN(k string, n int)    { c.out.Cover[k] += n }
func (c *Ctx) Eval()                     { c.out.Evals++ }
func (c *Ctx) Trace(f string, a ...any)  { c.trace = append(c.trace, clip(fmt.Sprintf(f, a...), 4000)) }
func (c *Ctx) Fail(f string, a ...any)   { vf.Fail(f, a...) }
func (c *Ctx) Digest(f string, a ...any) { c.out.Digest = append(c.out.Digest, fmt.Sprintf(f, a...)) }
func (c *Ctx) Chance(pct int) bool       { return c.R.Intn(100) < pct }

// EachEntry runs do for every entry of a map; random choices do not depend on the
// iteration order.
func (c *Ctx) EachEntry(m reflect.Value, do func(k, v reflect.Value)) {
	if m.Len() == 0 {
		return
	}
	seed, old := c.R.Int63(), c.R
	for it := m.MapRange(); it.Next(); {
		c.R = rand.New(rand.NewSource(seed))
		do(it.Key(), it.Value())
	}
	c.R = old
}

// Nontrivial marks the case as non-trivial and identifies it by its content.
func (c *Ctx) Nontrivial(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xff})
	}
	c.out.Hashes = append(c.out.Hashes, h.Sum64())
}

func (c *Ctx) Sample(f string, a ...any) {
	if len(c.out.Samples) < 2 {
		c.out.Samples = append(c.out.Samples, clip(fmt.Sprintf(f, a...), 700))
	}
}

// HarnessErr stops the run with an error of the machinery itself.
type HarnessErr struct{ msg string }

func harness(f string, a ...any) { panic(HarnessErr{fmt.Sprintf(f, a...)}) }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type prop struct {
	run   func(c *Ctx)
	setup func(c *Ctx) // once per process
}

var reversed bool // the cases run in reverse order

var props = map[string]prop{}

// ---- type selection ----

var goTypes = map[reflect.Type]*vf.Msg{}

func fromGo(t reflect.Type) *vf.Msg {
	if m := goTypes[t]; m != nil {
		return m
	}
	m, err := vf.FromGo(t)
	if err != nil {
		harness("FromGo(%v): %v", t, err)
	}
	goTypes[t] = m
	return m
}

// generated by the official plugin: scalar pointers, enum pointers, required fields,
// unexported bookkeeping
var officialTypes = []reflect.Type{
	reflect.TypeOf(descriptorpb.FileDescriptorProto{}),
	reflect.TypeOf(descriptorpb.UninterpretedOption{}),
	reflect.TypeOf(descriptorpb.SourceCodeInfo{}),
	reflect.TypeOf(descriptorpb.GeneratedCodeInfo{}),
	reflect.TypeOf(descriptorpb.FieldDescriptorProto{}),
	reflect.TypeOf(descriptorpb.FileOptions{}),
}

func famType(r *rand.Rand) *vf.Msg {
	if r.Intn(3) == 0 {
		return fromGo(fam.Twins[r.Intn(len(fam.Twins))])
	}
	f := fam.Families[r.Intn(len(fam.Families))]
	return fromGo(f[r.Intn(len(f))])
}

func (c *Ctx) pickType(o *vf.GenOpt) *vf.Msg {
	switch k := c.R.Intn(20); {
	case k < 16:
		return vf.Gen(c.R, o)
	case k < 18:
		c.Cover("type:recursive family")
		return famType(c.R)
	case k < 19:
		c.Cover("type:recursive Rec")
		return fromGo(reflect.TypeOf(fam.Rec{}))
	default:
		c.Cover("type:official generated")
		return fromGo(officialTypes[c.R.Intn(len(officialTypes))])
	}
}

// normalType is the common choice of a message type.
func (c *Ctx) normalType() *vf.Msg {
	t := c.pickType(&vf.GenOpt{MaxFields: 8, MaxSubs: 3, Canary: true, Wide: true})
	c.Trace("type %v", t)
	c.coverType(t)
	return t
}

func (c *Ctx) coverType(t *vf.Msg) {
	for _, m := range t.All() {
		for _, f := range m.Fields {
			c.Cover("shape:" + f.Shape())
		}
	}
}

// value draws a value; sometimes a big one.
func (c *Ctx) value(t *vf.Msg) *vf.MVal {
	o := vf.DefaultVal(c.R)
	switch c.R.Intn(40) {
	case 0:
		o.MaxStr, *o.Budget = 20000, 4000
		c.Cover("value:long strings")
	case 1:
		o.MaxList, *o.Budget = 400, 4000
		c.Cover("value:long lists")
	case 2:
		o.MaxDepth, *o.Budget, o.Fill = 40, 2000, 60
		c.Cover("value:deep")
	}
	return vf.GenM(c.R, t, o)
}

// longValue is a value with one, two or three parts of about n bytes, if its type has room for any.
func (c *Ctx) longValue(t *vf.Msg, n int) *vf.MVal {
	if d, ok := vf.Dict.Count(c.R, 3, 16, 2*n); ok {
		n = d
	}
	v := c.value(t)
	if vf.Long(c.R, v, n, 1+c.R.Intn(3)) == 0 {
		return nil
	}
	c.Cover(fmt.Sprintf("value:parts of 2^%d bytes", bits.Len(uint(n))-1))
	return v
}

// pads gives an encoding, now and then, very long runs of unknown fields.
func (c *Ctx) pads(o *vf.EncOpt) *vf.EncOpt {
	if o.Unknown > 0 && c.R.Intn(25) == 0 {
		o.Pads = 1 + c.R.Intn(4)
		o.Pad = 200 << uint(c.R.Intn(12))
		if o.Pad += c.R.Intn(o.Pad); c.Tier == "thorough" && c.R.Intn(10) == 0 {
			o.Pad <<= 3
		}
		if d, ok := vf.Dict.Count(c.R, 3, 16, 1<<20); ok {
			o.Pad = d
		}
		c.Cover(fmt.Sprintf("unknown:run of 2^%d bytes", bits.Len(uint(o.Pad))))
	}
	return o
}

// bigValue is value with now and then a huge list, map or string in it.
func (c *Ctx) bigValue(t *vf.Msg) *vf.MVal {
	v := c.value(t)
	if c.R.Intn(20) == 0 {
		n := []int{20, 64, 101, 101, 130, 130, 200, 300, 1025}[c.R.Intn(9)]
		if c.Tier == "thorough" && c.R.Intn(8) == 0 {
			n = 4000
		}
		if d, ok := vf.Dict.Count(c.R, 3, 2, 1025); ok {
			n = d
		}
		if vf.Deep(c.R, v, n) {
			c.Cover(fmt.Sprintf("value:nested %d levels", n))
			return v
		}
	}
	if c.R.Intn(25) == 0 { // a nested message longer than all others
		if what := vf.Giant(c.R, v, 2000, 20000); what != "" {
			c.Cover("value:long " + what[:4])
		}
		return v
	}
	if c.R.Intn(60) == 0 {
		elems, bytes := 30000, 5<<20
		if c.Tier == "thorough" && c.R.Intn(10) == 0 {
			elems, bytes = 400000, 40<<20
		}
		if what := vf.Giant(c.R, v, elems, bytes); what != "" {
			c.Cover("value:giant " + what[:4])
			c.Trace("giant value: %s", what)
		}
	}
	return v
}

// build makes the Go message of a value, in one of its representations.
func (c *Ctx) build(v *vf.MVal) reflect.Value {
	p := v.ToGo()
	if c.R.Intn(3) == 0 {
		vf.Decorate(c.R, v.T, p)
		c.Cover("value:decorated")
		if d := vf.Diff(v, vf.FromGoVal(v.T, p)); d != "" {
			harness("Decorate changed the value: %s", d)
		}
	}
	return p
}

func caseSeed(prop string, seed int64, k int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", prop, seed, k)
	return int64(h.Sum64() >> 1)
}

func main() {
	propID := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	cases := flag.Int("cases", 100, "total over all shards")
	only := flag.Int("case", -1, "replay a single case")
	upto := flag.Int("upto", -1, "replay the shard up to this case")
	outFile := flag.String("out", "", "")
	reverse := flag.Bool("reverse", false, "run the cases in reverse order")
	progress := flag.String("progress", "", "")
	flag.Parse()
	reversed = *reverse
	p, ok := props[*propID]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown workload", *propID)
		os.Exit(3)
	}
	out := &Out{Cover: map[string]int{}}
	var pf *os.File
	if *progress != "" {
		pf, _ = os.Create(*progress)
	}
	code := 0
	first := true
	var order []int
	for k := *shard; k < *cases; k += *shards {
		order = append(order, k)
	}
	if *reverse {
		slices.Reverse(order)
	}
	for _, k := range order {
		if *only >= 0 && k != *only {
			continue
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-12d", k)), 0)
		}
		c := &Ctx{R: rand.New(rand.NewSource(caseSeed(*propID, *seed, k))), Case: k, Seed: *seed, Tier: *tier, out: out}
		vf.Room.Store(uint32(c.R.Int63()))
		if first && p.setup != nil {
			p.setup(c)
		}
		first = false
		if runCase(c, p.run) {
			if out.Harness != "" {
				code = 3
			}
			break
		}
		out.Cases++
		if k == *upto {
			break
		}
	}
	if len(out.Hashes) > 0 {
		sort.Slice(out.Hashes, func(i, j int) bool { return out.Hashes[i] < out.Hashes[j] })
	}
	out.Notes = append(out.Notes, runtime.Version()+" "+runtime.GOARCH)
	if *outFile != "" {
		f, err := os.Create(*outFile)
		if err == nil {
			err = json.NewEncoder(f).Encode(out)
			f.Close()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			code = 3
		}
	}
	if out.Viol != nil {
		fmt.Printf("case %d: %s\n%s\n", out.Viol.Case, out.Viol.Msg, strings.Join(out.Viol.Trace, "\n"))
	}
	if out.Harness != "" {
		fmt.Fprintln(os.Stderr, out.Harness)
	}
	os.Exit(code)
}

func runCase(c *Ctx, f func(*Ctx)) (stop bool) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case vf.Violation:
			c.out.Viol = &Viol{c.Case, e.Msg, c.trace}
			stop = true
		case HarnessErr:
			c.out.Harness = fmt.Sprintf("case %d: %s\n%s", c.Case, e.msg, strings.Join(c.trace, "\n"))
			stop = true
		default:
			c.out.Harness = fmt.Sprintf("case %d: harness panic: %v\n%s\n%s", c.Case, e, debug.Stack(), strings.Join(c.trace, "\n"))
			stop = true
		}
	}()
	f(c)
	return false
}
