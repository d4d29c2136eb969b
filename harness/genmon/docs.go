package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"regexp"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

var word = regexp.MustCompile(`[A-Za-z0-9]+`)

func words(s string) []string {
	// Go source has no carriage returns in comments
	return word.FindAllString(strings.ReplaceAll(s, "\r", ""), -1)
}

func comment(g *ast.CommentGroup) string {
	if g == nil {
		return ""
	}
	var sb strings.Builder
	for _, c := range g.List {
		sb.WriteString(strings.TrimPrefix(c.Text, "//"))
		sb.WriteByte('\n')
	}
	return sb.String()
}

// holds tells whether the words of want follow one another in have.
func holds(have, want string) bool {
	h, w := " "+strings.Join(words(have), " ")+" ", " "+strings.Join(words(want), " ")+" "
	return len(words(want)) == 0 || strings.Contains(h, w)
}

var deprecatedLine = regexp.MustCompile(`(?m)^\s*Deprecated: `)
var generatedLine = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`)

// marker is put into every comment, so that it can be told where it comes from.
var marker = regexp.MustCompile(`uq[0-9]+x`)

// mark gives every comment of the files to generate a marker of its own.
func mark(req *pluginpb.CodeGeneratorRequest) *pluginpb.CodeGeneratorRequest {
	q := proto.Clone(req).(*pluginpb.CodeGeneratorRequest)
	n := 0
	next := func(s *string) *string {
		if s == nil {
			return nil
		}
		n++
		t := strings.TrimSuffix(*s, "\n")
		t += fmt.Sprintf(" uq%dx", n) + (*s)[len(t):]
		return &t
	}
	for _, fd := range q.ProtoFile {
		for _, l := range fd.GetSourceCodeInfo().GetLocation() {
			l.LeadingComments, l.TrailingComments = next(l.LeadingComments), next(l.TrailingComments)
			for i := range l.LeadingDetachedComments {
				l.LeadingDetachedComments[i] = *next(&l.LeadingDetachedComments[i])
			}
		}
	}
	return q
}

// docs watches what becomes of the comments of the schema.
func docs(set *schemaSet, req *pluginpb.CodeGeneratorRequest) {
	req = mark(req)
	plug, err := protogen.Options{}.New(req)
	if err != nil {
		panic(err)
	}
	res := generate(req, "the request with marked comments")
	if res.Error != nil {
		fail("the generator answers a valid schema with the error %q", res.GetError())
	}
	// comments have no influence on the code
	bare := proto.Clone(req).(*pluginpb.CodeGeneratorRequest)
	for _, fd := range bare.ProtoFile {
		fd.SourceCodeInfo = nil
	}
	without := content(generate(bare, "the request without comments"))
	all := content(res)
	for n, c := range all {
		p, i, b := inner(n, c, true)
		p0, i0, b0 := inner(n, without[n], true)
		if p != p0 || b != b0 || fmt.Sprint(i) != fmt.Sprint(i0) {
			fail("comments in the schema change the code of %s: %s", n, diffText(strings.ReplaceAll(b0, " ", "\n"), strings.ReplaceAll(b, " ", "\n")))
		}
		eval()
	}
	for _, f := range plug.Files {
		if !f.Generate {
			continue
		}
		n := outName(req, f)
		src := all[n]
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		if err != nil {
			fail("the file %s is not Go: %v", n, err)
		}
		head := src[:fset.Position(file.Package).Offset]
		if !generatedLine.MatchString(head) {
			fail("%s does not start with the line that marks generated code", n)
		}
		if !strings.Contains(head, f.Desc.Path()) {
			fail("%s does not name its source", n)
		}
		d := collect(file)
		own, dep := map[string]string{}, map[string]bool{}
		place := func(key, what string, lead, trail protogen.Comments, deprecated bool, trails bool) {
			x, ok := d[key]
			if !ok {
				fail("there is no declaration %s for %s in %s", key, what, n)
			}
			if !holds(x.doc, string(lead)) {
				fail("the comment of %s is not at %s in %s: want %q, have %q", what, key, n, lead, x.doc)
			}
			if deprecated && !deprecatedLine.MatchString(x.doc) {
				fail("%s is deprecated, but %s in %s is not marked: %q", what, key, n, x.doc)
			}
			own[key] += string(lead) + " " + string(trail)
			dep[key] = dep[key] || deprecated
			if t := strings.TrimSuffix(string(trail), "\n"); trails && t != "" && !strings.Contains(t, "\n") && !holds(x.line, t) {
				fail("the comment beside %s is not at %s in %s: want %q, have %q", what, key, n, t, x.line)
			}
			eval()
			if len(words(string(lead))) > 0 || len(words(string(trail))) > 0 || deprecated {
				note(key, string(lead), string(trail), fmt.Sprint(deprecated))
				cover("documented declarations", 1)
			}
		}
		enum := func(e *protogen.Enum) {
			place(e.GoIdent.GoName, string(e.Desc.FullName()), e.Comments.Leading, "", e.Desc.Options().(*descriptorpb.EnumOptions).GetDeprecated(), false)
			for _, v := range e.Values {
				place(v.GoIdent.GoName, string(v.Desc.FullName()), v.Comments.Leading, v.Comments.Trailing,
					v.Desc.Options().(*descriptorpb.EnumValueOptions).GetDeprecated(), true)
			}
		}
		var walk func(ms []*protogen.Message)
		walk = func(ms []*protogen.Message) {
			for _, m := range ms {
				if m.Desc.IsMapEntry() {
					continue
				}
				mn := m.GoIdent.GoName
				place(mn, string(m.Desc.FullName()), m.Comments.Leading, "", m.Desc.Options().(*descriptorpb.MessageOptions).GetDeprecated(), false)
				for _, f := range m.Fields {
					dep := f.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated()
					key := mn + "." + f.GoName
					if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
						key = f.GoIdent.GoName + "." + f.GoName
						place("("+mn+").Get"+f.GoName, string(f.Desc.FullName()), "", "", dep, false)
					}
					place(key, string(f.Desc.FullName()), f.Comments.Leading, f.Comments.Trailing, dep, true)
				}
				for _, o := range m.Oneofs {
					if !o.Desc.IsSynthetic() {
						place(mn+"."+o.GoName, string(o.Desc.FullName()), o.Comments.Leading, "", false, false)
					}
				}
				for _, e := range m.Enums {
					enum(e)
				}
				walk(m.Messages)
			}
		}
		for _, e := range f.Enums {
			enum(e)
		}
		walk(f.Messages)
		// and nowhere else
		for key, x := range d {
			for _, m := range marker.FindAllString(x.doc+" "+x.line, -1) {
				if !holds(own[key], m) {
					fail("the comment with %s is at %s in %s, which does not stand for that element: %q", m, key, n, x.doc+x.line)
				}
				eval()
			}
			if deprecatedLine.MatchString(x.doc) && !dep[key] && !deprecatedLine.MatchString(own[key]) {
				fail("%s in %s is marked as deprecated, which the element it stands for is not: %q", key, n, x.doc)
			}
		}
	}
}

type docText struct{ doc, line string }

// collect gives the comments at each declaration of a Go file.
func collect(file *ast.File) map[string]docText {
	d := map[string]docText{}
	for _, x := range file.Decls {
		switch x := x.(type) {
		case *ast.FuncDecl:
			k := x.Name.Name
			if x.Recv != nil {
				t := x.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				k = "(" + t.(*ast.Ident).Name + ")." + k
			}
			d[k] = docText{doc: comment(x.Doc)}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch s := s.(type) {
				case *ast.TypeSpec:
					doc := comment(s.Doc)
					if len(x.Specs) == 1 {
						doc = comment(x.Doc) + doc
					}
					d[s.Name.Name] = docText{doc, comment(s.Comment)}
					if st, ok := s.Type.(*ast.StructType); ok {
						for _, f := range st.Fields.List {
							for _, id := range f.Names {
								d[s.Name.Name+"."+id.Name] = docText{comment(f.Doc), comment(f.Comment)}
							}
						}
					}
				case *ast.ValueSpec:
					doc := comment(s.Doc)
					if len(x.Specs) == 1 {
						doc = comment(x.Doc) + doc
					}
					for _, id := range s.Names {
						d[id.Name] = docText{doc, comment(s.Comment)}
					}
				}
			}
		}
	}
	return d
}
