package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"verif/dict"
)

// schemaSet is a set of .proto files written by the random schema generator.
type schemaSet struct {
	name  string
	files []*schemaFile
	texts map[string]string
	order []string // file names, dependencies first
}

type schemaFile struct {
	name    string
	proto3  bool
	pkg     string // proto package
	goPkg   int
	imports []int // indices of directly imported files
	public  map[int]bool
	wkt     []string
	types   []*schemaType // messages and enums declared, nested ones too
}

type schemaType struct {
	full   string // with leading dot
	enum   bool
	proto3 bool
	zero   bool // enum: first value is zero
	vals   []string
}

type schemaGen struct {
	r        *rand.Rand
	set      *schemaSet
	f        *schemaFile
	oneofs   bool              // also oneofs, groups, extensions
	options  []string          // custom message options of the file
	names    map[string]bool   // of declarations, without case and underscores
	locals   []string          // names of nested declarations
	owner    map[string]string // of fields, with the name of their message in front
	sb       strings.Builder
	depth    int
	features map[string]int
	choices  []string          // names of oneofs
	choice   map[string]string // of a message by its name without scope
	long     int
	big      int // declarations that may still be large
}

var nameParts = []string{"foo", "bar", "user", "id", "HTTP", "url", "Msg", "item", "V2", "x", "Group", "elem", "data", "list", "a1", "Entry",
	"type", "func", "range", "map", "string", "int32", "error", "len", "nil", "true", "select", "package", "import", "go", "option",
	"Option", "proto", "Some", "Reset", "String", "Marshal", "Size", "ProtoMessage", "Descriptor", "get", "value", "key", "init", "main", "any", "iota",
	"default", "unsafe", "reflect", "Unmarshal", "ExtensionMap", "is", "interface", "struct", "const", "enum"}

func norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// ident draws an identifier; words are joined in one of the usual styles.
func (g *schemaGen) ident() string {
	r := g.r
	n := 1 + r.Intn(3)
	if r.Intn(15) == 0 {
		n = 4 + r.Intn(5)
	}
	style := r.Intn(5)
	var s string
	for i := 0; i < n; i++ {
		p := nameParts[r.Intn(len(nameParts))]
		if s, ok := dict.Generator.String(r, 10); ok && isWord(s) {
			p = s
		}
		switch style {
		case 0, 1: // snake
			if i > 0 {
				s += "_"
			}
			s += strings.ToLower(p)
		case 2: // Camel
			s += strings.ToUpper(p[:1]) + p[1:]
		case 3: // lowerCamel
			if i > 0 {
				s += strings.ToUpper(p[:1]) + p[1:]
			} else {
				s += strings.ToLower(p[:1]) + p[1:]
			}
		default:
			if i > 0 {
				s += "_"
			}
			s += strings.ToUpper(p)
		}
	}
	switch r.Intn(13) {
	case 12: // what generators use themselves
		u := []string{"File_", "File_", "File_", "XXX_", "E_", "Default_", "Enum_", "Is", "Has", "Set", "Clear", "Which", "Raw", "Unimplemented", "Register", "Test", "Benchmark"}
		s = u[r.Intn(len(u))] + strings.ToUpper(s[:1]) + s[1:]
	case 0:
		s += "_"
	case 1:
		s += fmt.Sprintf("_%d", r.Intn(10))
	case 2:
		s = "_" + s
	case 3:
		s = s[:1] + "__" + s[1:]
	}
	return s
}

// isWord tells whether s can be a part of a name.
func isWord(s string) bool {
	for i, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '_')) {
			return false
		}
	}
	return s != "" && len(s) < 30
}

// declName draws a name for a declaration that becomes a Go package-level name.
func (g *schemaGen) declName(prefix string) string {
	for {
		s := g.ident()
		k := norm(prefix + s)
		// a leading underscore becomes an X
		x := func() string { return norm(prefix + "x" + s) }
		if prefix != "" && len(g.locals) > 0 && g.r.Intn(4) == 0 {
			// like a declaration in another scope
			s = g.locals[g.r.Intn(len(g.locals))]
			if k = norm(prefix + s); k != "" && !g.names[k] && g.owner[k] == "" && !(s[0] == '_' && g.names[x()]) {
				g.names[k] = true
				if s[0] == '_' {
					g.names[x()] = true
				}
				g.features["same name in another scope"]++
				return s
			}
			continue
		}
		if s == "option" || s == "reserved" {
			continue // as enum values, protoc takes them for something else
		}
		if len(k) > 0 && !g.names[k] && !g.names[norm(s)] && g.owner[k] == "" && !(s[0] == '_' && g.names[x()]) {
			g.names[k] = true
			g.names[norm(s)] = true
			if s[0] == '_' {
				g.names[x()] = true
			}
			if prefix != "" {
				g.locals = append(g.locals, s)
			}
			return s
		}
	}
}

func (g *schemaGen) p(f string, a ...any) {
	g.sb.WriteString(strings.Repeat("  ", g.depth))
	fmt.Fprintf(&g.sb, f, a...)
	g.sb.WriteByte('\n')
}

var comments = []string{"plain words", "with `backticks` and \"quotes\"", "a */ b /* c", "100% %d %s", "über Ünïcode ✓", "ends with backslash \\",
	"}", "{ \"json\": 1 }", "//go:build ignore", "Deprecated: no", "tab\there", "Latin-1 caf\xe9", "mark \ufeff inside", "carriage\rreturn", "line\u2028separator", "+build ignore", "   +build ignore,linux !amd64"}

// text that the Go tools obey when it follows the slashes at once
var directives = []string{"go:noinline", "go:embed x", "line x.go:77", "export foo", "go:build ignore", "+build ignore", "nolint:all", "extern y",
	"go:generate rm x", "go:linkname a b", "line :1", "cgo:x", "\ufeffgo:noinline"}

// saying draws the text of a comment.
func saying(r *rand.Rand) string {
	if s, ok := dict.Generator.String(r, 10); ok && !strings.ContainsAny(s, "\n\r\x00") {
		return s
	}
	return comments[r.Intn(len(comments))]
}

func (g *schemaGen) comment() {
	r := g.r
	if r.Intn(150) == 0 {
		// longer than what line readers take
		n := []int{5000, 33000, 66000, 140000}[r.Intn(4)]
		if g.long += n; g.long < 300000 {
			g.p("// %s", strings.Repeat(comments[r.Intn(len(comments))]+" ", n/20))
			g.p("// and more")
			g.features["very long comment"]++
		}
		return
	}
	switch r.Intn(12) {
	case 11:
		// after an empty line it cannot belong to what is before
		g.p("")
		for n := 1 + r.Intn(2); n > 0; n-- {
			g.p("// on its own")
			g.p("")
		}
		if r.Intn(3) == 0 {
			g.p("// %s", saying(r))
		}
		g.features["detached comment"]++
	case 10:
		g.p("//%s", directives[r.Intn(len(directives))])
		if r.Intn(2) == 0 {
			g.p("//%s", directives[r.Intn(len(directives))])
		}
		g.features["comment like a directive"]++
	case 0:
		g.p("// %s", saying(r))
		g.features["leading comment"]++
	case 1:
		if r.Intn(3) == 0 {
			g.p("//")
		}
		g.p("// %s", saying(r))
		g.p("//")
		g.p("// %s", saying(r))
		if r.Intn(3) == 0 {
			g.p("//")
		}
		g.features["leading comment of several lines"]++
	case 2:
		g.p("/* first line")
		g.p(" * second ` line")
		g.p(" */")
		g.features["block comment"]++
	case 3:
		g.p("// detached")
		g.p("")
		g.p("// %s", saying(r))
	}
}

func (g *schemaGen) trailing() string {
	switch g.r.Intn(14) {
	case 0:
		g.features["trailing comment"]++
		return " // " + saying(g.r)
	case 1:
		return " /* one\n two */"
	case 2:
		g.features["trailing comment like a directive"]++
		return " //" + directives[g.r.Intn(len(directives))]
	}
	return ""
}

var wktFiles = map[string][]string{
	"google/protobuf/timestamp.proto":  {".google.protobuf.Timestamp"},
	"google/protobuf/duration.proto":   {".google.protobuf.Duration"},
	"google/protobuf/any.proto":        {".google.protobuf.Any"},
	"google/protobuf/empty.proto":      {".google.protobuf.Empty"},
	"google/protobuf/field_mask.proto": {".google.protobuf.FieldMask"},
	"google/protobuf/wrappers.proto":   {".google.protobuf.BytesValue", ".google.protobuf.Int64Value", ".google.protobuf.FloatValue", ".google.protobuf.StringValue"},
}
var wktNames = []string{"google/protobuf/timestamp.proto", "google/protobuf/duration.proto", "google/protobuf/any.proto",
	"google/protobuf/empty.proto", "google/protobuf/field_mask.proto", "google/protobuf/wrappers.proto"}

var places = []string{"google/protobuf", "google/api", "google", "github.com/RomiChan/protobuf/proto", "vendor", "internal", "proto", "test", "testdata", "third_party/x",
	"a/b/c/d/e/f/g", "UPPER/Case", "gogoproto", "x.y.z", "_hidden", ".dot", "protoc-gen-golite"}

// genSet draws a set of files.
func genSet(r *rand.Rand, name string, oneofs bool) (*schemaSet, map[string]int) {
	set := &schemaSet{name: name, texts: map[string]string{}}
	g := &schemaGen{r: r, set: set, oneofs: oneofs, choice: map[string]string{}, names: map[string]bool{}, owner: map[string]string{}, features: map[string]int{}}
	n := []int{1, 2, 2, 3, 3, 4, 5}[r.Intn(7)]
	goPkg := 0
	if r.Intn(10) == 0 {
		g.big = 2
	}
	base := r.Intn(12)
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(4) > 0 {
			goPkg++
		}
		f := &schemaFile{proto3: r.Intn(2) == 0, goPkg: goPkg, public: map[int]bool{}}
		f.pkg = []string{"", "p", "p.q", "long.package.name", "q", "google"}[r.Intn(6)]
		if f.pkg != "" {
			f.pkg += fmt.Sprint(".", name)
		} else if r.Intn(3) > 0 {
			f.pkg = name
		}
		f.name = fmt.Sprintf("%s/%sf%d.proto", name, []string{"", "dir/", "dir/sub-dir/"}[r.Intn(3)], i)
		switch r.Intn(24) {
		case 0, 1, 2:
			f.name = fmt.Sprintf("%s/we-ird.na_me%d.proto", name, i)
		case 3, 4, 5: // folders and names that mean something to somebody
			f.name = fmt.Sprintf("%s/%s/f%d.proto", places[r.Intn(len(places))], name, i)
			g.features["well-known folder"]++
		case 6:
			f.name = fmt.Sprintf("%s_f%d.proto", name, i)
		case 7:
			f.name = fmt.Sprintf("%s/%d/%s.proto", name, i, []string{"descriptor", "any", "main", "doc", "proto", "x.proto", "x.pb", "x_test", "plugin", "X", "a b", "timestamp"}[(base+i)%12]) // not two of one set
		}
		set.files = append(set.files, f)
		set.order = append(set.order, f.name)
		g.f = f
		g.file(i)
		set.texts[f.name] = g.sb.String()
	}
	return set, g.features
}

func (g *schemaGen) file(i int) {
	r, f := g.r, g.f
	g.sb.Reset()
	g.comment()
	if f.proto3 {
		g.p(`syntax = "proto3";`)
	} else if r.Intn(6) > 0 {
		g.p(`syntax = "proto2";`)
	}
	g.comment()
	if f.pkg != "" {
		g.p("package %s;", f.pkg)
	}
	for j := 0; j < i; j++ {
		if r.Intn(3) == 0 {
			continue
		}
		f.imports = append(f.imports, j)
		taken := false // two files of one Go package cannot both re-export the same names
		for _, h := range g.set.files[:i] {
			taken = taken || h.goPkg == f.goPkg && h.public[j]
		}
		if !taken && r.Intn(3) == 0 {
			f.public[j] = true
			g.p(`import public "%s";`, g.set.files[j].name)
			g.features["public import"]++
		} else {
			g.p(`import "%s";`, g.set.files[j].name)
			g.features["import"]++
		}
	}
	if r.Intn(4) == 0 {
		for _, w := range wktNames {
			if r.Intn(3) == 0 {
				f.wkt = append(f.wkt, w)
				g.p(`import "%s";`, w)
				g.features["import of a well-known type"]++
			}
		}
	}
	custom := g.oneofs && r.Intn(7) == 0
	if custom {
		g.p(`import "google/protobuf/descriptor.proto";`)
		g.features["custom option"]++
	}
	goName := ""
	switch f.goPkg % 4 {
	case 1:
		goName = ";proto"
	case 2:
		goName = ";pkgname"
	}
	// the last element of the path may look like something else
	last := []string{"", "", "", "", "/proto", "/reflect", "/strings", "/fmt", "/v2", "/go-pkg", "/type", "/math", "/x.y", "/P"}
	g.p(`option go_package = "genmod/%s/p%d%s%s";`, g.set.name, f.goPkg, last[(f.goPkg*5+len(g.set.name)+int(g.set.name[len(g.set.name)-1]))%len(last)], goName)
	if r.Intn(6) == 0 {
		g.p("option deprecated = true;")
	}
	if r.Intn(8) == 0 {
		g.p("option java_package = \"com.example\";\noption optimize_for = CODE_SIZE;\noption cc_enable_arenas = true;")
	}
	scope := "."
	if f.pkg != "" {
		scope = "." + f.pkg + "."
	}
	g.options = nil
	if custom {
		// 37383685 asks for field tracking, the other means nothing to the generator
		g.p("extend google.protobuf.MessageOptions {")
		for j, num := range []int{37383685, 50001 + i} {
			n := g.declName("")
			g.p("  optional %s %s = %d;", []string{"bool", "string"}[j], n, num)
			v := []string{"true", "false"}[r.Intn(2)]
			if j == 1 {
				v = `"a note"`
			}
			g.options = append(g.options, fmt.Sprintf("option (%s%s) = %s;", scope, n, v))
		}
		g.p("}")
	}
	// declare names first, so that fields can refer to anything in any order
	var decls []func()
	k := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		k = 0
	}
	if g.big > 0 && r.Intn(20) == 0 {
		g.big--
		k = 40 + r.Intn(60)
		g.features["file of many messages"]++
	}
	for j := 0; j < k; j++ {
		decls = append(decls, g.planMessage(scope, "", 0))
	}
	for j := r.Intn(3); j > 0; j-- {
		decls = append(decls, g.planEnum(scope, ""))
	}
	if len(decls) == 0 {
		g.features["file without declarations"]++
	}
	r.Shuffle(len(decls), func(a, b int) { decls[a], decls[b] = decls[b], decls[a] })
	for _, d := range decls {
		d()
	}
	var msgs []string
	for _, t := range f.types {
		if !t.enum {
			msgs = append(msgs, t.full)
		}
	}
	if len(msgs) > 0 && r.Intn(5) == 0 {
		g.features["service"]++
		g.p("service %s {", g.declName(""))
		g.p("  rpc DoIt (%s) returns (stream %s);", msgs[r.Intn(len(msgs))], msgs[r.Intn(len(msgs))])
		g.p("}")
	}
	if g.oneofs && !f.proto3 && r.Intn(3) == 0 {
		for _, t := range f.types {
			if !t.enum && strings.HasSuffix(t.full, "_ext") {
				g.features["extension"]++
				g.p("extend %s {", t.full)
				g.p("  optional int32 %s = 1000;", g.declName(""))
				g.p("  repeated string %s = 1001;", g.declName(""))
				g.p("}")
				break
			}
		}
	}
}

// visible lists the types that fields of the current file may refer to.
func (g *schemaGen) visible() (msgs, enums []*schemaType) {
	seen := map[int]bool{}
	var add func(j int)
	take := func(f *schemaFile) {
		for _, t := range f.types {
			if !t.enum {
				msgs = append(msgs, t)
			} else if t.proto3 || !g.f.proto3 {
				enums = append(enums, t)
			}
		}
	}
	add = func(j int) {
		if seen[j] {
			return
		}
		seen[j] = true
		f := g.set.files[j]
		take(f)
		for k := range f.imports {
			if f.public[f.imports[k]] {
				add(f.imports[k])
			}
		}
	}
	take(g.f)
	for _, j := range g.f.imports {
		add(j)
	}
	for _, w := range g.f.wkt {
		for _, t := range wktFiles[w] {
			msgs = append(msgs, &schemaType{full: t, proto3: true})
		}
	}
	return
}

func (g *schemaGen) planEnum(scope, goPrefix string) func() {
	r := g.r
	name := g.declName(goPrefix)
	t := &schemaType{full: scope + name, enum: true, proto3: g.f.proto3, zero: g.f.proto3 || r.Intn(3) > 0}
	g.f.types = append(g.f.types, t)
	n := 1 + r.Intn(5)
	if r.Intn(5) == 0 {
		n = 1 + r.Intn(40)
	}
	if g.big > 0 && r.Intn(20) == 0 {
		g.big--
		n = 200 + r.Intn(600)
		g.features["enum of hundreds of values"]++
	}
	if d, ok := dict.Generator.Count(r, 15, 1, 300); ok {
		n = d
	}
	dense := r.Intn(6) == 0 // the numbers from 0 up, in some order
	perm := r.Perm(n)
	used := map[int32]bool{}
	type val struct {
		name string
		num  int32
	}
	var vals []val
	alias := false
	for i := 0; i < n; i++ {
		var num int32
		for {
			switch r.Intn(4) {
			case 0:
				num = []int32{-1, -2147483648, 2147483647, 1, -128, 128, 65536}[r.Intn(7)]
			default:
				num = r.Int31n(int32(20 + 3*n))
			}
			if d, ok := dict.Generator.Count(r, 15, 1, 2147483647); ok {
				if num = int32(d); r.Intn(4) == 0 {
					num = -num
				}
			}
			if dense && t.zero {
				num = int32(perm[i] - perm[0])
				if num < 0 {
					num += int32(n)
				}
			}
			if i == 0 {
				num = 0
				if !t.zero {
					num = []int32{1, -1, 7, 11, -12, 64, 1000, 2147483647, -2147483648}[r.Intn(9)]
				}
			}
			if !used[num] {
				break
			}
		}
		used[num] = true
		// Values live in the scope of the enum, but their Go names may not collide.
		vals = append(vals, val{g.declName(goPrefix), num})
		if r.Intn(10) == 0 {
			alias = true
			g.features["enum alias"]++
			vals = append(vals, val{g.declName(goPrefix), num})
		}
	}
	for _, v := range vals {
		t.vals = append(t.vals, v.name)
	}
	g.features["enum"]++
	return func() {
		g.comment()
		g.p("enum %s {", name)
		g.depth++
		if alias {
			g.p("option allow_alias = true;")
		}
		if r.Intn(8) == 0 {
			g.p("option deprecated = true;")
		}
		for _, v := range vals {
			g.comment()
			opt := ""
			if r.Intn(8) == 0 {
				opt = " [deprecated = true]"
			}
			g.p("%s = %d%s;%s", v.name, v.num, opt, g.trailing())
		}
		g.depth--
		g.p("}")
	}
}

var scalarNames = []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64",
	"float", "double", "string", "bytes"}

func (g *schemaGen) planMessage(scope, goPrefix string, level int) func() {
	r := g.r
	name := g.declName(goPrefix)
	ext := !g.f.proto3 && r.Intn(6) == 0
	if ext {
		name += "_ext"
		g.names[norm(goPrefix+name)] = true
	}
	entry := !ext && r.Intn(14) == 0 && !g.names[norm(goPrefix+name+"Entry")] && g.owner[norm(goPrefix+name+"Entry")] == ""
	if entry {
		name += "Entry"
		g.names[norm(goPrefix+name)] = true
		g.features["message that looks like a map entry"]++
	}
	t := &schemaType{full: scope + name, proto3: g.f.proto3}
	g.f.types = append(g.f.types, t)
	inner := t.full + "."
	var nested []func()
	if level < 3 && !entry {
		for j := r.Intn(3); j > 0; j-- {
			if r.Intn(2) == 0 {
				nested = append(nested, g.planMessage(inner, goPrefix+name, level+1))
				g.features["nested message"]++
			} else if r.Intn(2) == 0 {
				nested = append(nested, g.planEnum(inner, goPrefix+name))
				g.features["nested enum"]++
			}
		}
	}
	nf := r.Intn(9)
	if r.Intn(10) == 0 {
		nf = 15 + r.Intn(25)
	}
	if d, ok := dict.Generator.Count(r, 15, 1, 150); ok {
		nf = d
	}
	if g.big > 0 && r.Intn(20) == 0 {
		g.big--
		nf = 150 + r.Intn(250)
		g.features["message of hundreds of fields"]++
	}
	if entry {
		nf = 0
	}
	return func() {
		g.comment()
		g.p("message %s {", name)
		g.depth++
		if r.Intn(10) == 0 {
			g.p("option deprecated = true;")
		}
		for _, o := range g.options {
			if r.Intn(2) == 0 {
				g.p("%s", o)
			}
		}
		m := &msgGen{g: g, local: name, goPrefix: goPrefix + name, used: map[int32]bool{}, fields: map[string]bool{}, json: map[string]bool{}, camel: map[string]bool{}}
		if ext {
			g.p("extensions 1000 to 1010, 2000 to max;")
			m.ext = true
			g.features["extension range"]++
		}
		if r.Intn(8) == 0 {
			g.p("reserved 900, 910 to 920;\n  reserved \"gone\", \"away\";")
			for n := int32(900); n < 921; n++ {
				m.used[n] = true
			}
			m.fields["gone"], m.fields["away"] = true, true
		}
		for _, d := range nested {
			if r.Intn(2) == 0 {
				d()
			} else {
				m.later = append(m.later, d)
			}
		}
		for num, name := range []string{"key", "value"} {
			if entry && m.take(name) {
				m.next, m.nextNum = name, int32(num+1)
				m.field(false)
				m.used[int32(num+1)] = true
			}
		}
		for i := 0; i < nf; i++ {
			if g.oneofs && r.Intn(6) == 0 {
				m.oneof()
			} else {
				m.field(false)
			}
		}
		for _, d := range m.later {
			d()
		}
		g.depth--
		g.p("}")
	}
}

type msgGen struct {
	g        *schemaGen
	goPrefix string
	local    string // its name without scope
	used     map[int32]bool
	fields   map[string]bool
	json     map[string]bool
	camel    map[string]bool
	ext      bool
	next     string // the name of the next field
	nextNum  int32  // and its number
	later    []func()
}

func (m *msgGen) num() int32 {
	if n := m.nextNum; n != 0 {
		m.nextNum = 0
		return n
	}
	r := m.g.r
	for {
		var n int32
		switch r.Intn(6) {
		case 0:
			n = []int32{15, 16, 127, 128, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870911}[r.Intn(13)]
		case 1:
			n = 1 + r.Int31n(536870911)
		default:
			n = 1 + r.Int31n(60)
		}
		if d, ok := dict.Generator.Count(r, 15, 1, 536870911); ok {
			n = int32(d)
		}
		if n >= 19000 && n <= 19999 || m.ext && n >= 1000 || m.used[n] {
			continue
		}
		m.used[n] = true
		return n
	}
}

// name draws a field name. protoc rejects two names with the same JSON name in
// proto3 files; Go names may collide, the generator has to cope.
func (m *msgGen) name() string {
	if s := m.next; s != "" {
		m.next = ""
		return s
	}
	for {
		s := m.g.ident()
		if m.g.r.Intn(12) == 0 && len(m.fields) > 0 {
			// provoke a collision of Go names
			var have []string
			for f := range m.fields {
				have = append(have, f)
			}
			sort.Strings(have)
			f := have[m.g.r.Intn(len(have))]
			s = []string{"get_" + f, f + "_", strings.ToUpper(f[:1]) + f[1:], "x" + f}[m.g.r.Intn(4)]
			m.g.features["provoked name collision"]++
		}
		if m.take(s) {
			return s
		}
	}
}

// take reserves a field name if it is acceptable.
func (m *msgGen) take(s string) bool {
	k := norm(s)
	c := strings.ToLower(s)
	if k == "" || m.fields[s] || m.json[k] && m.g.f.proto3 || m.camel[c] && m.g.f.proto3 {
		return false
	}
	// protogen does not resolve a field get_x beside a oneof x, for the official
	// generator neither
	if m.g.oneofs && (m.json["get"+k] || strings.HasPrefix(k, "get") && m.json[k[3:]]) {
		return false
	}
	// protoc itself derives names from map fields and groups
	if m.g.names[norm(m.goPrefix+s)] || m.g.names[norm(m.goPrefix+s+"entry")] || m.json[k+"entry"] {
		return false
	}
	if o := m.g.owner[norm(m.goPrefix+s)]; o != "" && o != m.goPrefix {
		return false
	}
	m.g.owner[norm(m.goPrefix+s)] = m.goPrefix
	m.fields[s], m.json[k], m.camel[c] = true, true, true
	return true
}

func (m *msgGen) typ() (name string, scalar bool, et *schemaType) {
	g := m.g
	msgs, enums := g.visible()
	switch k := g.r.Intn(10); {
	case k < 2 && len(msgs) > 0:
		return msgs[g.r.Intn(len(msgs))].full, false, nil
	case k < 4 && len(enums) > 0:
		e := enums[g.r.Intn(len(enums))]
		return e.full, true, e
	}
	return scalarNames[g.r.Intn(len(scalarNames))], true, nil
}

func (m *msgGen) field(inOneof bool) {
	g, r := m.g, m.g.r
	g.comment()
	typ, scalar, et := m.typ()
	name, num := m.name(), m.num()
	var opts []string
	if r.Intn(12) == 0 {
		opts = append(opts, "deprecated = true")
	}
	if r.Intn(12) == 0 {
		opts = append(opts, fmt.Sprintf("json_name = \"j%d\"", num))
	}
	if (typ == "int64" || typ == "uint64" || typ == "fixed64" || typ == "sint64" || typ == "sfixed64") && r.Intn(8) == 0 {
		opts = append(opts, "jstype = JS_STRING")
	}
	label := ""
	packable := scalar && typ != "string" && typ != "bytes"
	switch {
	case inOneof:
	case r.Intn(6) == 0:
		key := scalarNames[r.Intn(11)]
		if r.Intn(3) == 0 {
			key = "string"
		}
		if et != nil && !et.zero {
			typ = "int32"
		}
		for _, o := range opts {
			if strings.HasPrefix(o, "jstype") {
				opts = nil
			}
		}
		g.features["map field"]++
		g.p("map<%s, %s> %s = %d%s;%s", key, typ, name, num, optText(opts), g.trailing())
		return
	case r.Intn(4) == 0:
		label = "repeated "
		if packable && r.Intn(2) == 0 {
			v := []string{"true", "false"}[r.Intn(2)]
			opts = append(opts, "packed = "+v)
			g.features["packed = "+v]++
		}
	case g.f.proto3:
		if r.Intn(2) == 0 {
			label = "optional "
			g.features["proto3 optional"]++
		}
	default:
		label = "optional "
		if r.Intn(4) == 0 {
			label = "required "
			g.features["required"]++
		}
	}
	if !g.f.proto3 && label != "repeated " && scalar && r.Intn(4) == 0 {
		opts = append(opts, "default = "+defaultFor(r, typ, et))
		g.features["explicit default"]++
	}
	if !scalar && label != "repeated " && r.Intn(12) == 0 {
		opts = append(opts, "lazy = true")
	}
	g.p("%s%s %s = %d%s;%s", label, typ, name, num, optText(opts), g.trailing())
}

func (m *msgGen) oneof() {
	g, r := m.g, m.g.r
	if !g.f.proto3 && r.Intn(3) == 0 {
		// a group instead; its name is a type name and, in lower case, a field name
		n := g.declName(m.goPrefix)
		n = strings.ToUpper(strings.TrimLeft(n, "_")[:1]) + strings.TrimLeft(n, "_")[1:]
		if n[0] < 'A' || n[0] > 'Z' || m.fields[strings.ToLower(n)] {
			return
		}
		m.fields[strings.ToLower(n)], m.json[norm(n)], m.camel[strings.ToLower(n)] = true, true, true
		g.features["group"]++
		g.p("%s group %s = %d {", []string{"optional", "repeated", "required"}[r.Intn(3)], n, m.num())
		g.p("  optional int32 inside_%d = 1;", r.Intn(1000))
		g.p("}")
		return
	}
	g.features["oneof"]++
	g.comment()
	var name string
	if s := g.choice[m.local]; s != "" && r.Intn(3) > 0 && m.take(s) {
		name = s // like one of another message of that name
	} else if len(g.choices) > 0 && r.Intn(3) == 0 {
		// like a oneof of another message
		if s := g.choices[r.Intn(len(g.choices))]; m.take(s) {
			name = s
		}
	}
	if name == "" {
		name = m.name()
		g.choices = append(g.choices, name)
	}
	g.choice[m.local] = name
	if r.Intn(3) == 0 {
		// the usual way to name a oneof is after what it holds
		derived := name + []string{"_type", "_value", "_kind", "_oneof", "_or", "s", "_1", "_case", "Type"}[r.Intn(9)]
		if m.take(derived) {
			m.next, name = name, derived
			g.features["oneof named after its member"]++
		}
	}
	g.p("oneof %s {", name)
	g.depth++
	for j := 1 + r.Intn(5); j > 0; j-- {
		m.field(true)
	}
	g.depth--
	g.p("}")
}

func optText(o []string) string {
	if len(o) == 0 {
		return ""
	}
	return " [" + strings.Join(o, ", ") + "]"
}

func defaultFor(r *rand.Rand, typ string, et *schemaType) string {
	if et != nil {
		return et.vals[r.Intn(len(et.vals))]
	}
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	switch typ {
	case "bool":
		return pick("true", "false")
	case "string":
		return pick(`""`, `"x"`, `"quote\" and \\ and \n ü"`, `"`+"`"+`"`)
	case "bytes":
		return pick(`""`, `"\000\377\x10"`, `"abc"`)
	case "float", "double":
		return pick("0", "-1.5", "inf", "-inf", "nan", "1e30")
	case "uint32", "fixed32":
		return pick("0", "1", "4294967295")
	case "uint64", "fixed64":
		return pick("0", "1", "18446744073709551615")
	case "int32", "sint32", "sfixed32":
		return pick("0", "-2147483648", "2147483647")
	}
	return pick("0", "-9223372036854775808", "9223372036854775807")
}
