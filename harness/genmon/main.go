// Command genmon writes random schema sets, runs the generator on them, watches its
// responses (C15) and lays out a Go module in which the generated code can be built.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

type out struct {
	Cases   int            `json:"cases"`
	Evals   int            `json:"evals"`
	Hashes  []uint64       `json:"hashes"`
	Cover   map[string]int `json:"cover"`
	Samples []string       `json:"samples"`
	Viol    *viol          `json:"violation,omitempty"`
	Harness string         `json:"harness_error,omitempty"`
	Sets    []string       `json:"sets"`
}

type viol struct {
	Case  int      `json:"case"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

type violation struct{ msg string }

func fail(f string, a ...any) { panic(violation{fmt.Sprintf(f, a...)}) }

var (
	prop   = flag.String("prop", "C14", "")
	seed   = flag.Int64("seed", 1, "")
	sets   = flag.Int("sets", 10, "")
	only   = flag.Int("only", -1, "")
	plugin = flag.String("plugin", "", "")
	dir    = flag.String("dir", "", "")
	outf   = flag.String("out", "", "")
	mu     sync.Mutex
	o      = &out{Cover: map[string]int{}}
)

func cover(k string, n int) {
	mu.Lock()
	o.Cover[k] += n
	mu.Unlock()
}

func main() {
	flag.Parse()
	var wg sync.WaitGroup
	ch := make(chan int)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				one(k)
			}
		}()
	}
	for k := 0; k < *sets; k++ {
		if *only < 0 || k == *only {
			ch <- k
		}
	}
	close(ch)
	wg.Wait()
	sort.Strings(o.Sets)
	if o.Viol == nil && o.Harness == "" && (*prop == "C14" || *prop == "C15") {
		writeMain()
	}
	b, _ := json.Marshal(o)
	os.WriteFile(*outf, b, 0o644)
	if o.Harness != "" {
		os.Exit(3)
	}
}

func one(k int) {
	name := fmt.Sprintf("s%04d", k)
	var set *schemaSet
	defer func() {
		if e := recover(); e != nil {
			v, ok := e.(violation)
			mu.Lock()
			defer mu.Unlock()
			if !ok {
				o.Harness = fmt.Sprintf("set %d: %v", k, e)
				return
			}
			if o.Viol == nil || k < o.Viol.Case {
				w := &viol{k, v.msg, nil}
				if set != nil {
					for _, f := range set.order {
						w.Trace = append(w.Trace, f+":\n"+set.texts[f])
					}
				}
				o.Viol = w
			}
		}
	}()
	r := rand.New(rand.NewSource(*seed*1000033 + int64(k)))
	var features map[string]int
	set, features = genSet(r, name, *prop != "C14")
	root := filepath.Join(*dir, "proto")
	for f, text := range set.texts {
		write(filepath.Join(root, f), []byte(text))
	}
	// the protobuf compiler decides what is a schema
	desc := filepath.Join(*dir, name+".desc")
	args := append([]string{"-I", root, "-I", "/usr/include", "--include_imports", "--include_source_info", "--descriptor_set_out=" + desc}, set.order...)
	if msg, err := exec.Command("protoc", args...).CombinedOutput(); err != nil {
		cover("schemas:rejected by protoc", 1)
		if os.Getenv("GENMON_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "protoc rejects %s: %s", name, msg)
		}
		return
	}
	b, err := os.ReadFile(desc)
	if err != nil {
		panic(err)
	}
	os.Remove(desc)
	fds := &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(b, fds); err != nil {
		panic(err)
	}
	param := []string{"", "paths=source_relative", "module=genmod", "paths=import"}[r.Intn(4)]
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: set.order, Parameter: proto.String(param), ProtoFile: fds.File,
		CompilerVersion: &pluginpb.Version{Major: proto.Int32(3), Minor: proto.Int32(21), Patch: proto.Int32(12)}}
	plug, err := protogen.Options{}.New(req)
	if err != nil {
		cover("schemas:rejected by the official generator library", 1)
		if os.Getenv("GENMON_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "protogen rejects %s: %s\n", name, err)
		}
		return
	}
	for f, n := range features {
		cover("schema:"+f, n)
	}
	cover("schemas:accepted", 1)
	cover("schema files", len(set.order))
	res := generate(req, "the request for all files of the set")
	if *prop == "C15" {
		respond(r, set, req, plug, res)
	}
	if *prop == "C20" && res.Error == nil {
		params(r, set, req)
	}
	if *prop == "C21" && res.Error == nil {
		docs(set, req)
	}
	if res.Error != nil {
		fail("the generator answers a valid schema with the error %q", res.GetError())
	}
	if *prop == "C20" || *prop == "C21" { // nothing is built
		mu.Lock()
		o.Cases++
		if len(o.Samples) < 2 {
			o.Samples = append(o.Samples, fmt.Sprintf("%v with %q", set.order, param))
		}
		mu.Unlock()
		return
	}
	pipeline(set, req, root, res)
	// lay out the module; file names always follow the import path there
	files := content(res)
	for _, f := range plug.Files {
		if !f.Generate {
			continue
		}
		c, ok := files[outName(req, f)]
		if !ok {
			fail("no file %s.pb.go in the response", f.GeneratedFilenamePrefix)
		}
		dst := strings.TrimPrefix(string(f.GoImportPath), "genmod/") + "/g" + strings.ReplaceAll(f.GeneratedFilenamePrefix, "/", "_") + ".pb.go"
		write(filepath.Join(*dir, "mod", dst), []byte(c))
	}
	rb, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	reqFile := filepath.Join(*dir, "req", name+".pb")
	write(reqFile, rb)
	table(set, plug, k, reqFile, files)
	mu.Lock()
	o.Cases++
	o.Sets = append(o.Sets, name)
	mu.Unlock()
}

// pipeline runs the generator the way users do, under protoc, and compares what is written.
func pipeline(set *schemaSet, req *pluginpb.CodeGeneratorRequest, root string, res *pluginpb.CodeGeneratorResponse) {
	dst := filepath.Join(*dir, "protoc", set.name)
	if err := os.MkdirAll(dst, 0o755); err != nil {
		panic(err)
	}
	opt := req.GetParameter()
	if opt != "" {
		opt += ":"
	}
	args := append([]string{"-I", root, "-I", "/usr/include", "--plugin=protoc-gen-golite=" + *plugin, "--golite_out=" + opt + dst}, set.order...)
	if msg, err := exec.Command("protoc", args...).CombinedOutput(); err != nil {
		fail("protoc refuses the generator's response to a valid schema: %v: %s", err, msg)
	}
	n := 0
	filepath.Walk(dst, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			n++
		}
		return nil
	})
	if n != len(res.File) {
		fail("protoc wrote %d files, the response has %d", n, len(res.File))
	}
	for name, c := range content(res) {
		b, err := os.ReadFile(filepath.Join(dst, name))
		if err != nil || string(b) != c {
			fail("the file %s written by protoc differs from the response: %v %s", name, err, diffText(string(b), c))
		}
	}
	os.RemoveAll(dst)
	mu.Lock()
	o.Evals++
	mu.Unlock()
	cover("requests:through protoc", 1)
}

func write(name string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(name, b, 0o644); err != nil {
		panic(err)
	}
}

func runPlugin(in []byte, env ...string) ([]byte, string, error) {
	cmd := exec.Command(*plugin)
	if len(env) > 0 {
		cmd.Env = append(os.Environ(), env...)
		cmd.Dir = *dir
	}
	cmd.Stdin = bytes.NewReader(in)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	cover("generator runs", 1)
	return so.Bytes(), se.String(), err
}

func generate(req *pluginpb.CodeGeneratorRequest, what string) *pluginpb.CodeGeneratorResponse {
	in, err := proto.MarshalOptions{Deterministic: true}.Marshal(req)
	if err != nil {
		panic(err)
	}
	so, se, err := runPlugin(in)
	if err != nil {
		fail("the generator failed on %s: %v: %s", what, err, se)
	}
	res := &pluginpb.CodeGeneratorResponse{}
	if err := proto.Unmarshal(so, res); err != nil {
		fail("the response to %s is not a response: %v", what, err)
	}
	return res
}

func content(res *pluginpb.CodeGeneratorResponse) map[string]string {
	m := map[string]string{}
	for _, f := range res.File {
		m[f.GetName()] = f.GetContent()
	}
	return m
}

func diffText(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(end)", "(end)"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %q and %q", i+1, p, q)
		}
	}
	return "no difference"
}

// outName is the name of the output file of f.
func outName(req *pluginpb.CodeGeneratorRequest, f *protogen.File) string {
	n := f.GeneratedFilenamePrefix + ".pb.go"
	if req.GetParameter() == "module=genmod" {
		n = strings.TrimPrefix(n, "genmod/")
	}
	return n
}

// expectFiles: exactly one output per requested file.
func expectFiles(req *pluginpb.CodeGeneratorRequest, plug *protogen.Plugin, res *pluginpb.CodeGeneratorResponse, what string) {
	if res.Error != nil {
		fail("the generator answers %s with the error %q", what, res.GetError())
	}
	want := map[string]bool{}
	requested := map[string]bool{}
	for _, n := range req.FileToGenerate {
		requested[n] = true
	}
	for _, f := range plug.Files {
		if requested[f.Desc.Path()] {
			want[outName(req, f)] = true
		}
	}
	seen := map[string]bool{}
	for _, f := range res.File {
		n := f.GetName()
		if f.InsertionPoint != nil {
			fail("%s: the response uses an insertion point in %s", what, n)
		}
		if seen[n] {
			fail("%s: file %s is in the response twice", what, n)
		}
		seen[n] = true
		if !want[n] {
			fail("%s: file %s was not requested (requested %v)", what, n, req.FileToGenerate)
		}
	}
	for n := range want {
		if !seen[n] {
			fail("%s: file %s is missing", what, n)
		}
	}
	mu.Lock()
	o.Evals++
	mu.Unlock()
}

// respond watches responses to equal, partial and permuted requests.
func respond(r *rand.Rand, set *schemaSet, req *pluginpb.CodeGeneratorRequest, plug *protogen.Plugin, first *pluginpb.CodeGeneratorResponse) {
	in, err := proto.MarshalOptions{Deterministic: true}.Marshal(req)
	if err != nil {
		panic(err)
	}
	h := fnv.New64a()
	for _, f := range set.order {
		h.Write([]byte(set.texts[f]))
	}
	expectFiles(req, plug, first, "the request for all files")
	all := content(first)
	var ref []byte
	for i := 0; i < 4; i++ {
		so, se, err := runPlugin(in, [][]string{nil, {"GOMAXPROCS=1", "TZ=Asia/Tokyo"}, {"GOGC=1", "HOME=/nonexistent"}, {"LANG=C", "GODEBUG=randautoseed=1"}}[i]...)
		if err != nil {
			fail("the generator failed: %v: %s", err, se)
		}
		if ref == nil {
			ref = so
		}
		if !bytes.Equal(ref, so) {
			res := &pluginpb.CodeGeneratorResponse{}
			proto.Unmarshal(so, res)
			for n, c := range content(res) {
				if c != all[n] {
					fail("equal requests, unequal responses: file %s: %s", n, diffText(all[n], c))
				}
			}
			fail("equal requests, unequal responses")
		}
		mu.Lock()
		o.Evals++
		mu.Unlock()
	}
	mu.Lock()
	o.Hashes = append(o.Hashes, h.Sum64())
	if len(o.Samples) < 2 && len(set.order) > 1 {
		s := set.texts[set.order[len(set.order)-1]]
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		o.Samples = append(o.Samples, s)
	}
	mu.Unlock()
	partial := func(files []string, what string) {
		q := proto.Clone(req).(*pluginpb.CodeGeneratorRequest)
		q.FileToGenerate = files
		res := generate(q, what)
		expectFiles(q, plug, res, what)
		for n, c := range content(res) {
			if c != all[n] {
				fail("the content of %s depends on what else is requested (%s): %s", n, what, diffText(all[n], c))
			}
			mu.Lock()
			o.Evals++
			mu.Unlock()
		}
		cover("requests:"+strings.SplitN(what, ":", 2)[0], 1)
	}
	if len(set.order) > 1 {
		for _, f := range set.order {
			partial([]string{f}, "one file: "+f)
		}
		rev := append([]string{}, set.order...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		partial(rev, "reversed: all files in reverse order")
		if len(set.order) > 2 {
			p := r.Perm(len(set.order))[:2]
			partial([]string{set.order[p[0]], set.order[p[1]]}, "two files: some")
		}
	}
	// files that play no part, at the end of the request
	for i, f := range set.order {
		if i+1 == len(set.order) {
			break
		}
		q := proto.Clone(req).(*pluginpb.CodeGeneratorRequest)
		q.FileToGenerate = []string{f}
		var need []*descriptorpb.FileDescriptorProto
		deps := map[string]bool{f: true}
		for j := len(q.ProtoFile) - 1; j >= 0; j-- {
			if fd := q.ProtoFile[j]; deps[fd.GetName()] {
				for _, d := range fd.Dependency {
					deps[d] = true
				}
			}
		}
		for _, fd := range q.ProtoFile {
			if deps[fd.GetName()] {
				need = append(need, fd)
			}
		}
		q.ProtoFile = need
		res := generate(q, "a file with its dependencies only")
		expectFiles(q, plug, res, "a file with its dependencies only")
		for n, c := range content(res) {
			if c != all[n] {
				fail("the content of %s depends on which unrelated files are known: %s", n, diffText(all[n], c))
			}
		}
		cover("requests:dependencies only", 1)
		mu.Lock()
		o.Evals++
		mu.Unlock()
	}
}

// table writes the package that lists the generated declarations of a set.
func table(set *schemaSet, plug *protogen.Plugin, index int, reqFile string, files map[string]string) {
	imp := map[protogen.GoImportPath]string{}
	alias := func(p protogen.GoImportPath) string {
		if imp[p] == "" {
			imp[p] = fmt.Sprintf("g%d", len(imp))
		}
		return imp[p]
	}
	var types, enumTypes, enums, fwd []string
	id := func(i protogen.GoIdent) string { return alias(i.GoImportPath) + "." + i.GoName }
	var oneEnum func(e *protogen.Enum)
	oneEnum = func(e *protogen.Enum) {
		enumTypes = append(enumTypes, fmt.Sprintf("%q: reflect.TypeOf(%s(0)),", e.Desc.FullName(), id(e.GoIdent)))
		for _, v := range e.Values {
			enums = append(enums, fmt.Sprintf("%q: int64(%s),", string(v.Desc.FullName())+"#"+string(e.Desc.Name()), id(v.GoIdent)))
		}
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			if m.Desc.IsMapEntry() {
				continue
			}
			types = append(types, fmt.Sprintf("%q: reflect.TypeOf(%s{}),", m.Desc.FullName(), id(m.GoIdent)))
			for _, f := range m.Fields {
				if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
					types = append(types, fmt.Sprintf("%q: reflect.TypeOf(%s{}),", string(m.Desc.FullName())+"#"+string(f.Desc.Name()), id(f.GoIdent)))
				}
			}
			for _, e := range m.Enums {
				oneEnum(e)
			}
			walk(m.Messages)
		}
	}
	for _, f := range plug.Files {
		if !f.Generate {
			continue
		}
		for _, e := range f.Enums {
			oneEnum(e)
		}
		walk(f.Messages)
		if *prop != "C15" {
			continue
		}
		for i := 0; i < f.Desc.Imports().Len(); i++ {
			im := f.Desc.Imports().Get(i)
			b := plug.FilesByPath[im.Path()]
			if !im.IsPublic || b.GoImportPath == f.GoImportPath || !b.Generate {
				continue
			}
			in, of := f.GoImportPath, b.GoImportPath
			tname := func(n string) {
				fwd = append(fwd, fmt.Sprintf("{Name: %q, In: reflect.TypeOf(%s.%s{}), Of: reflect.TypeOf(%s.%s{})},", n, alias(in), n, alias(of), n))
			}
			var enum func(e *protogen.Enum)
			enum = func(e *protogen.Enum) {
				n := e.GoIdent.GoName
				if exported(n) {
					fwd = append(fwd, fmt.Sprintf("{Name: %q, In: reflect.TypeOf(%s.%s(0)), Of: reflect.TypeOf(%s.%s(0))},", n, alias(in), n, alias(of), n))
				}
				for _, v := range e.Values {
					n := v.GoIdent.GoName
					if exported(n) {
						fwd = append(fwd, fmt.Sprintf("{Name: %q, A: int64(%s.%s), B: int64(%s.%s)},", n, alias(in), n, alias(of), n))
					}
				}
			}
			var msgs func(ms []*protogen.Message)
			msgs = func(ms []*protogen.Message) {
				for _, m := range ms {
					if m.Desc.IsMapEntry() {
						continue
					}
					if exported(m.GoIdent.GoName) {
						tname(m.GoIdent.GoName)
					}
					for _, f := range m.Fields {
						if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() && exported(f.GoIdent.GoName) {
							tname(f.GoIdent.GoName)
						}
					}
					for _, e := range m.Enums {
						enum(e)
					}
					msgs(m.Messages)
				}
			}
			for _, e := range b.Enums {
				enum(e)
			}
			msgs(b.Messages)
		}
	}
	// every generated package is built, also one without declarations
	blank := map[protogen.GoImportPath]bool{}
	for _, f := range plug.Files {
		if f.Generate && imp[f.GoImportPath] == "" {
			blank[f.GoImportPath] = true
		}
	}
	var sb strings.Builder
	sb.WriteString("package table\n\nimport (\n\t\"reflect\"\n\t\"verif/exch\"\n")
	for p, a := range imp {
		fmt.Fprintf(&sb, "\t%s %q\n", a, string(p))
	}
	for p := range blank {
		fmt.Fprintf(&sb, "\t_ %q\n", string(p))
	}
	fmt.Fprintf(&sb, ")\n\nvar Set = &exch.Set{Name: %q, Index: %d, Request: %q,\n", set.name, index, reqFile)
	fmt.Fprintf(&sb, "Types: map[string]reflect.Type{\n%s\n},\n", strings.Join(types, "\n"))
	fmt.Fprintf(&sb, "EnumTypes: map[string]reflect.Type{\n%s\n},\n", strings.Join(enumTypes, "\n"))
	fmt.Fprintf(&sb, "Enums: map[string]int64{\n%s\n},\n", strings.Join(enums, "\n"))
	fmt.Fprintf(&sb, "Forwards: []exch.Forward{\n%s\n},\n}\n", strings.Join(fwd, "\n"))
	write(filepath.Join(*dir, "mod", set.name, "table", "table.go"), []byte(sb.String()))
}

func exported(n string) bool { return ast.IsExported(n) }

func writeMain() {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"verif/exch\"\n")
	for _, s := range o.Sets {
		fmt.Fprintf(&sb, "\t%s \"genmod/%s/table\"\n", s, s)
	}
	sb.WriteString(")\n\nfunc main() {\n\texch.Main([]*exch.Set{\n")
	for _, s := range o.Sets {
		fmt.Fprintf(&sb, "\t\t%s.Set,\n", s)
	}
	sb.WriteString("\t})\n}\n")
	if _, err := parser.ParseFile(token.NewFileSet(), "main.go", sb.String(), 0); err != nil {
		panic(err)
	}
	write(filepath.Join(*dir, "mod", "main.go"), []byte(sb.String()))
}
