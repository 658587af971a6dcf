package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"regexp"
	"sort"
	"strings"
	"sync"
)

var (
	impOnce sync.Once
	impPkgs = map[string]*types.Package{}
	impFset = token.NewFileSet()
)

type mapImporter struct{}

func (mapImporter) Import(p string) (*types.Package, error) {
	if p == "unsafe" {
		return types.Unsafe, nil
	}
	if pk := impPkgs[p]; pk != nil {
		return pk, nil
	}
	return nil, fmt.Errorf("package %s is not available to generated code", p)
}

func loadImports() {
	impOnce.Do(func() {
		imp := importer.ForCompiler(impFset, "source", nil)
		for _, p := range []string{"fmt", "runtime", "sync", "strings", "errors", "os"} {
			pk, err := imp.Import(p)
			if err != nil {
				panic(err)
			}
			impPkgs[p] = pk
		}
	})
}

const validateSrc = "func vtValidate(name string) error { return nil }\n"

// checkPackage type checks one generated package directory (C treated as an
// opaque import) and cross-checks its C side. It returns every problem found.
func checkPackage(tree Tree, dir string, extra string) []string {
	loadImports()
	var probs []string
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, p := range tree.files() {
		if path.Dir(p) == dir && strings.HasSuffix(p, ".go") {
			names = append(names, p)
		}
	}
	if len(names) == 0 {
		return []string{"no Go file in " + dir}
	}
	pkgName := ""
	exports := map[string]string{}
	for _, p := range names {
		f, err := parser.ParseFile(fset, path.Base(p), tree[p][2:], parser.ParseComments)
		if err != nil {
			probs = append(probs, "parse: "+err.Error())
			continue
		}
		if pkgName == "" {
			pkgName = f.Name.Name
		}
		files = append(files, f)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//export ") {
					n := strings.TrimSpace(c.Text[9:])
					if exports[n] != "" {
						probs = append(probs, "cgo export declared twice: "+n)
					}
					exports[n] = fd.Name.Name
				}
			}
		}
	}
	if len(probs) > 0 {
		return probs
	}
	if extra != "" {
		f, err := parser.ParseFile(fset, "extra_verif.go", "package "+pkgName+"\n"+extra, 0)
		if err != nil {
			return []string{err.Error()}
		}
		files = append(files, f)
	}
	rawTypes := map[string]bool{}
	for _, p := range names {
		for _, mm := range rawTypeRx.FindAllStringSubmatch(tree[p], -1) {
			rawTypes[mm[1]] = true
		}
	}
	seen := map[string]bool{}
	conf := types.Config{FakeImportC: true, Importer: mapImporter{}, DisableUnusedImportCheck: false,
		Error: func(err error) {
			te := err.(types.Error)
			if strings.Contains(te.Msg, "invalid type") {
				return // a type of the C side, opaque here
			}
			if mm := rawRx.FindStringSubmatch(te.Msg); mm != nil && rawTypes[mm[1]] {
				return // selector on a type that is an alias of a C struct
			}
			s := fmt.Sprintf("%s: %s", fset.Position(te.Pos), te.Msg)
			if !seen[s] {
				seen[s] = true
				probs = append(probs, s)
			}
		}}
	conf.Check(pkgName, fset, files, nil)

	// C side
	h, okh := tree[path.Join(dir, "cgo_helpers.h")]
	c, okc := tree[path.Join(dir, "cgo_helpers.c")]
	hdecl := cProtos(h)
	cdef := cProtos(c)
	for n, k := range hdecl {
		if k > 1 {
			probs = append(probs, "C declaration repeated in cgo_helpers.h: "+n)
		}
	}
	for n, k := range cdef {
		if k > 1 {
			probs = append(probs, "C definition repeated in cgo_helpers.c: "+n)
		}
		if hdecl[n] == 0 {
			probs = append(probs, "C function without declaration in cgo_helpers.h: "+n)
		}
	}
	if len(cdef) > 0 && !okh {
		probs = append(probs, "cgo_helpers.c without cgo_helpers.h")
	}
	_ = okc
	// every Go reference to a callback proxy has all of its three sides
	rx := regexp.MustCompile(`C\.((?:[A-Za-z0-9_]+)_[0-9a-f]{6,8})\b`)
	refs := map[string]bool{}
	for _, p := range names {
		for _, mm := range rx.FindAllStringSubmatch(tree[p], -1) {
			refs[mm[1]] = true
		}
	}
	for n := range refs {
		if hdecl[n] == 0 {
			probs = append(probs, "C."+n+" is used but not declared in cgo_helpers.h")
		}
		if cdef[n] == 0 {
			probs = append(probs, "C."+n+" is used but not defined in cgo_helpers.c")
		}
	}
	// every C proxy forwards to an exported Go function
	for n := range cdef {
		body := c[strings.Index(c, n):]
		if i := strings.Index(body, "{"); i >= 0 {
			body = body[i:]
			if j := strings.Index(body, "}"); j >= 0 {
				body = body[:j]
			}
			mm := regexp.MustCompile(`([A-Za-z_][A-Za-z0-9_]*)\(`).FindStringSubmatch(body)
			if mm == nil || exports[mm[1]] == "" {
				probs = append(probs, "C function "+n+" does not forward to an exported Go function")
			}
		}
	}
	sort.Strings(probs)
	return probs
}

var protoRx = regexp.MustCompile(`(?m)^[A-Za-z_][^;{}()#/]*?\b([A-Za-z_][A-Za-z0-9_]*)\([^;{}]*\)\s*[;{]`)

func cProtos(src string) map[string]int {
	out := map[string]int{}
	src = strings.TrimPrefix(src, "f:")
	for _, mm := range protoRx.FindAllStringSubmatch(src, -1) {
		out[mm[1]]++
	}
	return out
}

var rawRx = regexp.MustCompile(`type \*?([A-Za-z0-9_]+) has no field or method`)
var rawTypeRx = regexp.MustCompile(`(?m)^type ([A-Za-z0-9_]+) C\.`)
