package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"hash/fnv"
	"math/rand"
	"path"
	"sort"
	"strconv"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func eval() {
	mu.Lock()
	o.Evals++
	mu.Unlock()
}

func note(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	mu.Lock()
	o.Hashes = append(o.Hashes, h.Sum64())
	mu.Unlock()
}

const damaged = "a damaged request" // on which protogen itself may give up in any way

// attempt runs the generator; ok tells whether it claims success.
func attempt(in []byte, what string) (res *pluginpb.CodeGeneratorResponse, ok bool) {
	so, se, err := runPlugin(in)
	if what != damaged && strings.Contains(se, "goroutine ") && strings.Contains(se, "panic") {
		if len(se) > 1500 {
			se = se[:1500]
		}
		fail("the generator crashes on %s: %s", what, se)
	}
	res = &pluginpb.CodeGeneratorResponse{}
	if proto.Unmarshal(so, res) != nil {
		fail("the generator writes something that is not a response to %s", what)
	}
	if err != nil {
		if len(so) != 0 {
			fail("the generator fails on %s but has written a response", what)
		}
		return res, false
	}
	if res.Error != nil {
		if len(res.File) > 0 {
			fail("the response to %s has an error and %d files", what, len(res.File))
		}
		return res, false
	}
	return res, true
}

// inner is a Go file without its imports, forwarding declarations, comments and package qualifiers.
// The bodies of functions (whose defaults may be written in several ways) are left out unless bodies is set.
func inner(name, src string, bodies bool) (pkg string, imports []string, body string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		fail("the file %s is not Go: %v", name, err)
	}
	packages := map[string]bool{}
	for _, i := range f.Imports {
		p, _ := strconv.Unquote(i.Path.Value)
		imports = append(imports, p)
		if i.Name != nil {
			packages[i.Name.Name] = true
		} else {
			packages[path.Base(p)] = true
		}
	}
	forward := func(e ast.Expr) bool {
		s, ok := e.(*ast.SelectorExpr)
		if !ok {
			return false
		}
		x, ok := s.X.(*ast.Ident)
		return ok && packages[x.Name]
	}
	var keep []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok {
			if g.Tok == token.IMPORT {
				continue
			}
			all := true
			for _, s := range g.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					all = all && s.Assign != 0 && forward(s.Type)
				case *ast.ValueSpec:
					all = all && len(s.Values) == 1 && forward(s.Values[0])
				}
			}
			if all {
				continue
			}
		}
		if f, ok := d.(*ast.FuncDecl); ok && !bodies {
			f.Body = nil
		}
		keep = append(keep, d)
	}
	var sb strings.Builder
	for _, d := range keep {
		d := stripQualifiers(d, packages)
		var b bytes.Buffer
		if err := format.Node(&b, token.NewFileSet(), d); err != nil {
			panic(err)
		}
		sb.WriteString(b.String())
		sb.WriteString("\n")
	}
	sort.Strings(imports)
	return f.Name.Name, imports, strings.Join(strings.Fields(sb.String()), " ")
}

// stripQualifiers turns pkg.Name into Name.
func stripQualifiers(d ast.Decl, packages map[string]bool) ast.Decl {
	var expr func(e ast.Expr) ast.Expr
	expr = func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && packages[id.Name] && ast.IsExported(x.Sel.Name) {
				return ast.NewIdent(x.Sel.Name)
			}
		}
		return e
	}
	ast.Inspect(d, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Field:
			x.Type = expr(x.Type)
		case *ast.StarExpr:
			x.X = expr(x.X)
		case *ast.ArrayType:
			x.Elt = expr(x.Elt)
		case *ast.MapType:
			x.Key, x.Value = expr(x.Key), expr(x.Value)
		case *ast.IndexExpr:
			x.X, x.Index = expr(x.X), expr(x.Index)
		case *ast.ReturnStmt:
			for i := range x.Results {
				x.Results[i] = expr(x.Results[i])
			}
		case *ast.CallExpr:
			x.Fun = expr(x.Fun)
		case *ast.TypeSpec:
			x.Type = expr(x.Type)
		case *ast.ValueSpec:
			x.Type = expr(x.Type)
		}
		return true
	})
	return d
}

func with(req *pluginpb.CodeGeneratorRequest, param string) *pluginpb.CodeGeneratorRequest {
	q := proto.Clone(req).(*pluginpb.CodeGeneratorRequest)
	q.Parameter = proto.String(param)
	return q
}

func wire(m proto.Message) []byte {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// parameters of other generators, of other times, and misspelt ones
var unknownParams = []string{"plugins", "experimental_allow_unstable", "lite", "optional", "json", "require_unimplemented_servers", "import_prefix", "import_path",
	"Paths", "PATHS", " paths", "paths ", "path", "modules", "annotate", "annotate_code ", "annotate-code", "-paths", "--paths", "go_opt", "go_package", "help", "version",
	"h", "v", "debug", "verbose", "default_api_level", "features", "use_generic_streams_experimental", "gogoproto", "target", "out", "grpc", "enum", "getters", "no_getters",
	"test.v", "httptest.serve", "cpuprofile", "proto", "golite", "\"paths\"", "source_relative", "import", "true", "1", "*", "/", "m" + "x.proto"}

// params watches what the parameters of a request do.
func params(r *rand.Rand, set *schemaSet, req *pluginpb.CodeGeneratorRequest) {
	base, ok := attempt(wire(with(req, "paths=source_relative")), "a valid request")
	if !ok {
		fail("the generator refuses a valid request: %v", base.GetError())
	}
	if base.GetSupportedFeatures()&uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL) == 0 {
		fail("the response does not declare support of proto3 optional fields, which the generator has")
	}
	content0 := content(base)
	// where the files go
	goPath := map[string]string{}
	for _, fd := range req.ProtoFile {
		p := fd.GetOptions().GetGoPackage()
		if i := strings.IndexByte(p, ';'); i >= 0 {
			p = p[:i]
		}
		goPath[fd.GetName()] = p
	}
	relative := func(f string) string { return strings.TrimSuffix(f, ".proto") + ".pb.go" }
	imported := func(f string) string { return goPath[f] + "/" + path.Base(relative(f)) }
	for _, v := range []struct {
		param string
		name  func(f string) string
	}{
		{"", imported}, {"paths=import", imported}, {"paths=source_relative", relative},
		{"module=genmod", func(f string) string { return strings.TrimPrefix(imported(f), "genmod/") }},
		{"paths=import,module=genmod/" + set.name, func(f string) string { return strings.TrimPrefix(imported(f), "genmod/"+set.name+"/") }},
		{"annotate_code=false,,paths=source_relative", relative},
	} {
		what := fmt.Sprintf("the request with parameter %q", v.param)
		res, ok := attempt(wire(with(req, v.param)), what)
		if !ok {
			fail("the generator refuses %s: %v", what, res.GetError())
		}
		got := content(res)
		if len(res.File) != len(set.order) {
			fail("%s: %d files for %d schema files", what, len(res.File), len(set.order))
		}
		for _, f := range set.order {
			c, ok := got[v.name(f)]
			if !ok {
				var have []string
				for n := range got {
					have = append(have, n)
				}
				fail("%s: the output for %s is not at %s but among %v", what, f, v.name(f), have)
			}
			if c != content0[relative(f)] {
				fail("%s: the location changes the content for %s: %s", what, f, diffText(content0[relative(f)], c))
			}
			eval()
		}
		cover("parameters:location", 1)
		note(set.name, v.param, content0[relative(set.order[0])])
	}
	remap(r, set, req, content0)
	annotations(set, req, content0)
	// what is refused
	bad := func(what string, q *pluginpb.CodeGeneratorRequest) {
		if _, ok := attempt(wire(q), what); ok {
			fail("the generator accepts %s", what)
		}
		cover("parameters:refused", 1)
		eval()
	}
	refused := []string{"plugins=grpc", "nonsense", "paths=elsewhere", "module=genmod/" + set.name + "/nowhere", "annotate_code=maybe",
		"paths=source_relative,module=genmod", "paths=import,unknown_flag=1"}
	for i := 0; i < 3; i++ {
		p := unknownParams[r.Intn(len(unknownParams))]
		if r.Intn(3) == 0 { // any word
			b := make([]byte, 1+r.Intn(12))
			for j := range b {
				b[j] = "abcdefghijklmnopqrstuvwxyz_.-0123456789"[r.Intn(39)]
			}
			p = "x" + string(b)
		}
		p += []string{"", "=", "=1", "=true", "=false", "=x=y", "=/etc"}[r.Intn(7)]
		p = []string{"", "paths=source_relative,", "annotate_code=true,", ",,"}[r.Intn(4)] + p + []string{"", ",paths=source_relative", ","}[r.Intn(3)]
		refused = append(refused, p)
	}
	for _, p := range refused {
		bad(fmt.Sprintf("the parameter %q", p), with(req, p))
	}
	victim := r.Intn(len(set.order))
	for i := range req.ProtoFile {
		if req.ProtoFile[i].GetName() != set.order[victim] {
			continue
		}
		q := with(req, "paths=source_relative")
		q.ProtoFile[i].Options.GoPackage = nil
		bad("a file without a Go import path", q)
		q.Parameter = proto.String("paths=source_relative,M" + set.order[victim] + "=" + req.ProtoFile[i].GetOptions().GetGoPackage())
		res, ok := attempt(wire(q), "a file with its Go import path as parameter")
		if !ok {
			fail("the generator refuses a file whose Go import path comes as a parameter: %s", res.GetError())
		}
		for n, c := range content(res) {
			if c != content0[n] {
				fail("the Go import path given as a parameter instead of in the file changes %s: %s", n, diffText(content0[n], c))
			}
		}
		eval()
		q = with(req, "")
		q.FileToGenerate = append(q.FileToGenerate, set.name+"/missing.proto")
		bad("a request for a file that is not described", q)
		if len(set.order) > 1 && victim < len(set.order)-1 {
			q = with(req, "")
			used := false
			for _, fd := range req.ProtoFile {
				for _, d := range fd.Dependency {
					used = used || d == set.order[victim]
				}
			}
			q.ProtoFile = append(q.ProtoFile[:i:i], q.ProtoFile[i+1:]...)
			if used {
				bad("a request that lacks a dependency", q)
			}
		}
	}
	// nothing to generate
	q := with(req, "")
	q.FileToGenerate = nil
	res, ok := attempt(wire(q), "a request for no file")
	if !ok {
		fail("the generator refuses a request for no file: %s", res.GetError())
	}
	if len(res.File) != 0 {
		fail("a request for no file is answered with %d", len(res.File))
	}
	if res.GetSupportedFeatures() != base.GetSupportedFeatures() {
		fail("the features declared depend on the files requested: %v and %v", base.GetSupportedFeatures(), res.GetSupportedFeatures())
	}
	eval()
	cover("parameters:no file requested", 1)
	// damaged requests
	in := wire(with(req, ""))
	for i := 0; i < 6; i++ {
		d := append([]byte{}, in...)
		switch r.Intn(3) {
		case 0:
			d = d[:r.Intn(len(d))]
		case 1:
			d[r.Intn(len(d))] ^= 1 << r.Intn(8)
		default:
			n := r.Intn(len(d))
			d = append(d[:n:n], d[n+r.Intn(len(d)-n):]...)
		}
		q := &pluginpb.CodeGeneratorRequest{}
		broken := proto.Unmarshal(d, q) != nil
		if !broken {
			func() {
				defer func() {
					if recover() != nil {
						broken = true
					}
				}()
				_, err := protogen.Options{ParamFunc: func(p, v string) error { return fmt.Errorf("unknown") }}.New(q)
				broken = err != nil
			}()
		}
		_, ok := attempt(d, damaged)
		if ok && broken {
			fail("the generator accepts a damaged request")
		}
		cover(fmt.Sprintf("damaged request, usable %t", !broken), 1)
		eval()
	}
}

// remap moves single files to other Go packages.
func remap(r *rand.Rand, set *schemaSet, req *pluginpb.CodeGeneratorRequest, content0 map[string]string) {
	for i := 0; i < 3; i++ {
		var moved []string
		param := "paths=source_relative"
		if r.Intn(2) == 0 {
			param = ""
		}
		for _, fd := range req.ProtoFile {
			if r.Intn(3) == 0 {
				to := []string{"example.com/moved", "example.com/moved/v2", "other/" + set.name}[r.Intn(3)]
				to += fmt.Sprint("/m", len(moved), "-x.y")
				if r.Intn(2) == 0 {
					to += ";" + []string{"proto", "named", "main", "fmt"}[r.Intn(4)] + fmt.Sprint(len(moved))
				}
				moved = append(moved, fd.GetName())
				param += ",M" + fd.GetName() + "=" + to
			}
		}
		if len(moved) == 0 {
			continue
		}
		what := fmt.Sprintf("the request with parameter %q", param)
		q := with(req, param)
		plug, err := protogen.Options{}.New(q)
		res, ok := attempt(wire(q), what)
		if err != nil {
			if ok {
				fail("the generator accepts %s, although %v", what, err)
			}
			continue
		}
		if !ok {
			fail("the generator refuses %s: %s", what, res.GetError())
		}
		got := content(res)
		for _, f := range plug.Files {
			if !f.Generate {
				continue
			}
			n := f.GeneratedFilenamePrefix + ".pb.go"
			c, ok := got[n]
			if !ok {
				fail("%s: no file %s", what, n)
			}
			pkg, imports, body := inner(n, c, false)
			_, _, body0 := inner(n, content0[strings.TrimSuffix(f.Desc.Path(), ".proto")+".pb.go"], false)
			if pkg != string(f.GoPackageName) {
				fail("%s: the package of %s is called %s, want %s", what, f.Desc.Path(), pkg, f.GoPackageName)
			}
			if body != body0 {
				fail("%s: the declarations for %s change: %s", what, f.Desc.Path(), diffText(strings.ReplaceAll(body0, " ", "\n"), strings.ReplaceAll(body, " ", "\n")))
			}
			// imports are those of the schema, and the runtime
			may := map[string]bool{"github.com/RomiChan/protobuf/proto": true}
			var deps func(f *protogen.File)
			var must []string
			seen := map[string]bool{}
			deps = func(f *protogen.File) {
				for j := 0; j < f.Desc.Imports().Len(); j++ {
					d := plug.FilesByPath[f.Desc.Imports().Get(j).Path()]
					may[string(d.GoImportPath)] = true
					if !seen[d.Desc.Path()] {
						seen[d.Desc.Path()] = true
						deps(d)
					}
				}
			}
			deps(f)
			for j := 0; j < f.Desc.Imports().Len(); j++ {
				if d := plug.FilesByPath[f.Desc.Imports().Get(j).Path()]; d.GoImportPath != f.GoImportPath {
					must = append(must, string(d.GoImportPath))
				}
			}
			has := map[string]bool{}
			for _, p := range imports {
				has[p] = true
				if !may[p] || p == string(f.GoImportPath) {
					fail("%s: the file for %s imports %q, which is none of its dependencies", what, f.Desc.Path(), p)
				}
			}
			for _, p := range must {
				if !has[p] {
					fail("%s: the file for %s does not import %q, where a dependency is", what, f.Desc.Path(), p)
				}
			}
			eval()
			note(what, c)
		}
		cover("parameters:import path given", 1)
	}
}

// annotations checks that the recorded positions are those of the declarations they claim to be.
func annotations(set *schemaSet, req *pluginpb.CodeGeneratorRequest, content0 map[string]string) {
	q := with(req, "paths=source_relative,annotate_code=true")
	plug, err := protogen.Options{}.New(with(req, ""))
	if err != nil {
		panic(err)
	}
	what := "the request with annotate_code"
	res, ok := attempt(wire(q), what)
	if !ok {
		fail("the generator refuses %s: %s", what, res.GetError())
	}
	got := content(res)
	for _, f := range plug.Files {
		if !f.Generate {
			continue
		}
		n := strings.TrimSuffix(f.Desc.Path(), ".proto") + ".pb.go"
		src, ok := got[n]
		if !ok || src != content0[n] {
			fail("%s: the content of %s changes: %s", what, n, diffText(content0[n], src))
		}
		meta, ok := got[n+".meta"]
		if !ok {
			fail("%s: there is no %s.meta", what, n)
		}
		info := &descriptorpb.GeneratedCodeInfo{}
		if err := prototext.Unmarshal([]byte(meta), info); err != nil {
			fail("%s: %s.meta is not readable: %v", what, n, err)
		}
		names := goNames(f)
		found := map[string]bool{}
		for _, a := range info.Annotation {
			if a.GetSourceFile() != f.Desc.Path() || a.GetBegin() < 0 || a.GetEnd() > int32(len(src)) || a.GetBegin() >= a.GetEnd() {
				fail("%s: %s.meta has a wrong annotation: %v", what, n, a)
			}
			key := fmt.Sprint(a.Path)
			text := src[a.GetBegin():a.GetEnd()]
			if !names[key][text] {
				fail("%s: %s.meta says that %q is the element %s of the schema, which is called %v", what, n, text, key, names[key])
			}
			found[key] = true
			eval()
		}
		for key := range names {
			if !found[key] {
				fail("%s: %s.meta has no position for the element %s, which is called %v", what, n, key, names[key])
			}
		}
	}
	cover("parameters:annotate_code", 1)
}

// goNames gives the Go names that a position may have, by the path of the schema element.
func goNames(f *protogen.File) map[string]map[string]bool {
	m := map[string]map[string]bool{}
	add := func(l protogen.Location, names ...string) {
		k := fmt.Sprint([]int32(l.Path))
		if m[k] == nil {
			m[k] = map[string]bool{}
		}
		for _, n := range names {
			m[k][n] = true
		}
	}
	enum := func(e *protogen.Enum) {
		add(e.Location, e.GoIdent.GoName)
		for _, v := range e.Values {
			add(v.Location, v.GoIdent.GoName)
		}
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, x := range ms {
			if x.Desc.IsMapEntry() {
				continue
			}
			add(x.Location, x.GoIdent.GoName)
			for _, f := range x.Fields {
				if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
					add(f.Location, f.GoName, f.GoIdent.GoName, "Get"+f.GoName)
				} else {
					add(f.Location, f.GoName, "Get"+f.GoName)
				}
			}
			for _, o := range x.Oneofs {
				if !o.Desc.IsSynthetic() {
					add(o.Location, o.GoName, "Get"+o.GoName)
				}
			}
			for _, e := range x.Enums {
				enum(e)
			}
			walk(x.Messages)
		}
	}
	for _, e := range f.Enums {
		enum(e)
	}
	walk(f.Messages)
	return m
}
