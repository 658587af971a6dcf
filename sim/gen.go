package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
)

// Input is one randomly generated invocation: headers, manifests and flags.
// Paths are relative to the "in" directory of the scratch root.
type Input struct {
	Seed      int64             `json:"seed"`
	Files     map[string]string `json:"files"`
	Manifests []string          `json:"manifests"`
	Pkgs      []string          `json:"pkgs"`
	Args      []string          `json:"args"` // flags without -out
	Feat      []string          `json:"feat"`
	confs     map[string]m      // manifests before they were rendered
	enc       map[string]func(any) []byte
}

// variant renders the manifest again with another package name and a few keys
// missing or changed.
func (in *Input) variant(mn, pkg string, r *rand.Rand) string {
	var c m
	if err := json.Unmarshal(marshal(in.confs[mn]), &c); err != nil {
		panic(err)
	}
	part := func(k string) m { return c[k].(m) }
	part("GENERATOR")["PackageName"] = pkg
	for n := r.Intn(5); n > 0; n-- {
		k := []string{"GENERATOR", "PARSER", "TRANSLATOR", "TRANSLATOR"}[r.Intn(4)]
		q := part(k)
		switch r.Intn(4) {
		case 0:
			var hs []string
			for _, f := range sortedNames(in.Files) {
				if strings.HasSuffix(f, ".h") {
					hs = append(hs, path.Base(f))
				}
			}
			if _, ok := part("PARSER")["IgnoredPaths"]; ok {
				delete(part("PARSER"), "IgnoredPaths")
			} else if len(hs) > 0 {
				part("PARSER")["IgnoredPaths"] = []string{hs[r.Intn(len(hs))]}
			}
		default:
			var ks []string
			for x := range q {
				if x != "PackageName" && x != "SourcesPaths" && x != "IncludePaths" && x != "Includes" {
					ks = append(ks, x)
				}
			}
			sort.Strings(ks)
			if len(ks) > 0 {
				delete(q, ks[r.Intn(len(ks))])
			}
		}
	}
	return string(in.enc[mn](c)) + "\n"
}

func (in *Input) clone() *Input {
	c := *in
	c.Files = map[string]string{}
	for k, v := range in.Files {
		c.Files[k] = v
	}
	c.Manifests = append([]string(nil), in.Manifests...)
	c.Pkgs = append([]string(nil), in.Pkgs...)
	c.Args = append([]string(nil), in.Args...)
	c.Feat = append([]string(nil), in.Feat...)
	return &c
}

// moveManifest puts a manifest into a directory of its own; its headers stay
// and are found through one more include path.
func (in *Input) moveManifest(i int, dir string) {
	m := in.Manifests[i]
	const usr, here = `"/usr/include"`, `"<root>/in"`
	if a, b, ok := strings.Cut(in.Files[m], usr); ok {
		sep := ", "
		if k := strings.LastIndexByte(a, '\n'); strings.HasSuffix(a, "- ") {
			sep = a[k:]
		}
		in.Files[dir+m] = a + here + sep + usr + b
		delete(in.Files, m)
		in.Manifests[i] = dir + m
	}
}

type genOpt struct {
	pkgconf   bool
	oldHost   bool // the last directory to search is hostold
	confDir   bool // manifests are found through their directories
	manifests int  // 0: mostly one
	allowCC   bool
	noCGO     int // -1 never, 0 sometimes, 1 always
	small     bool
	compile   bool // bodies are compilable (no missing libs): restricts flags
	tidy      bool // restrict to shapes the generator promises type correct bindings for
}

type hgen struct {
	r       *rand.Rand
	pfx     string
	n       int
	ints    []string
	enums   []string
	structs []string
	opaques []string
	unions  []string
	cbs     []string
	funcs   []string
	consts  []string
	ptrs    []string // typedefs of pointers
	more    bool     // the wider set of declarations
	odd     bool     // and the less usual ones
	fparams map[string][]string
	feat    map[string]bool
	tidy    bool
}

func (g *hgen) id(kind string) string {
	g.n++
	return fmt.Sprintf("%s_%s%d", g.pfx, kind, g.n)
}
func (g *hgen) ID(kind string) string {
	g.n++
	return fmt.Sprintf("%s_%s%d", strings.ToUpper(g.pfx), kind, g.n)
}
func (g *hgen) p(n int) bool           { return g.r.Intn(100) < n }
func (g *hgen) pick(s []string) string { return s[g.r.Intn(len(s))] }
func (g *hgen) f(s string)             { g.feat[s] = true }

// untidy are features for which the generator makes no type-correct bindings.
var untidy = map[string]bool{"member-struct-ptrptr": true, "param-struct-ptrptr": true, "typedef-struct-alias": true, "typedef-struct-ptr": true, "typedef-opaque-ptr": true, "typedef-char": true, "odd-near-names": true}

func (g *hgen) ok(s string) bool {
	if g.tidy && untidy[s] || moreOnly != "" && s != moreOnly {
		return false
	}
	g.f(s)
	return true
}

var plainInts = []string{"int", "unsigned int", "short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "char", "signed char", "unsigned char", "float", "double", "int32_t", "uint8_t", "uint64_t", "size_t"}

func (g *hgen) intType() string {
	if len(g.ints) > 0 && g.p(25) {
		return g.pick(g.ints)
	}
	return g.pick(plainInts)
}

// memberType returns "T name" declarator for a struct member.
func (g *hgen) member(name string) string {
	if g.more && g.p(25) {
		switch g.r.Intn(5) {
		case 0:
			if g.ok("member-chars") {
				return "char* " + name
			}
		case 1:
			if g.ok("member-bytes") {
				return "unsigned char* " + name
			}
		case 2:
			if g.ok("member-string-array") {
				return fmt.Sprintf("const char* %s[%d]", name, 1+g.r.Intn(4))
			}
		case 3:
			if g.ok("member-ptrptr") {
				return g.intType() + "** " + name
			}
		case 4:
			if len(g.structs) > 0 && g.ok("member-struct-ptrptr") {
				return g.pick(g.structs) + "** " + name
			}
		}
	}
	for {
		switch g.r.Intn(16) {
		case 0, 1, 2:
			return g.intType() + " " + name
		case 3:
			g.f("member-string")
			return "const char* " + name
		case 4:
			g.f("member-array")
			return fmt.Sprintf("%s %s[%d]", g.intType(), name, 1+g.r.Intn(5))
		case 5:
			g.f("member-ptr")
			return g.intType() + "* " + name
		case 6:
			return "void* " + name
		case 7:
			if len(g.structs) > 0 {
				g.f("member-struct")
				return g.pick(g.structs) + " " + name
			}
		case 8:
			if len(g.structs) > 0 {
				g.f("member-struct-ptr")
				return g.pick(g.structs) + "* " + name
			}
		case 9:
			if len(g.structs) > 0 {
				g.f("member-struct-array")
				return fmt.Sprintf("%s %s[%d]", g.pick(g.structs), name, 1+g.r.Intn(3))
			}
		case 10:
			if len(g.enums) > 0 {
				g.f("member-enum")
				return g.pick(g.enums) + " " + name
			}
		case 11:
			if len(g.opaques) > 0 {
				g.f("member-opaque-ptr")
				return g.pick(g.opaques) + "* " + name
			}
		case 12:
			if len(g.unions) > 0 {
				g.f("member-union")
				return g.pick(g.unions) + " " + name
			}
		case 13:
			if len(g.cbs) > 0 {
				g.f("member-callback")
				return g.pick(g.cbs) + " " + name
			}
		case 14:
			g.f("member-strings")
			return "const char** " + name
		case 15:
			g.f("member-array2")
			return fmt.Sprintf("%s %s[%d][%d]", g.intType(), name, 1+g.r.Intn(3), 1+g.r.Intn(3))
		}
	}
}

func (g *hgen) param(name string) string {
	if g.more && g.p(25) {
		switch g.r.Intn(8) {
		case 0:
			if g.ok("param-chars") {
				return "char* " + name
			}
		case 1:
			if g.ok("param-array2") {
				return fmt.Sprintf("%s %s[%d][%d]", g.intType(), name, 1+g.r.Intn(3), 1+g.r.Intn(3))
			}
		case 2:
			if g.ok("param-const-ptr") {
				return "const " + g.intType() + "* " + name
			}
		case 3:
			if g.ok("param-void-ptrptr") {
				return "void** " + name
			}
		case 4:
			if len(g.structs) > 0 && g.ok("param-struct-ptrptr") {
				return g.pick(g.structs) + "** " + name
			}
		case 5:
			if len(g.unions) > 0 && g.ok("param-union") {
				return g.pick(g.unions) + " " + name
			}
		case 6:
			if len(g.enums) > 0 && g.ok("param-enum-ptr") {
				return g.pick(g.enums) + "* " + name
			}
		case 7:
			if g.ok("param-string-array") {
				return fmt.Sprintf("const char* %s[%d]", name, 1+g.r.Intn(4))
			}
		}
	}
	for {
		switch g.r.Intn(22) {
		case 0, 1, 2:
			return g.intType() + " " + name
		case 3, 4:
			g.f("param-string")
			return "const char* " + name
		case 5:
			g.f("param-bytes")
			return "unsigned char* " + name
		case 6:
			g.f("param-ptr")
			return g.intType() + "* " + name
		case 7:
			return "void* " + name
		case 8:
			if len(g.structs) > 0 {
				g.f("param-struct")
				return g.pick(g.structs) + " " + name
			}
		case 9, 10:
			if len(g.structs) > 0 {
				g.f("param-struct-ptr")
				return g.pick(g.structs) + "* " + name
			}
		case 11:
			if len(g.structs) > 0 {
				g.f("param-const-struct-ptr")
				return "const " + g.pick(g.structs) + "* " + name
			}
		case 12:
			if len(g.enums) > 0 {
				g.f("param-enum")
				return g.pick(g.enums) + " " + name
			}
		case 13:
			if len(g.opaques) > 0 {
				g.f("param-opaque")
				return g.pick(g.opaques) + "* " + name
			}
		case 14:
			if len(g.unions) > 0 {
				g.f("param-union-ptr")
				return g.pick(g.unions) + "* " + name
			}
		case 15, 16:
			if len(g.cbs) > 0 {
				g.f("param-callback")
				return g.pick(g.cbs) + " " + name
			}
		case 17:
			g.f("param-strings")
			return "const char** " + name
		case 18:
			g.f("param-array")
			return fmt.Sprintf("%s %s[%d]", g.intType(), name, 1+g.r.Intn(5))
		case 19:
			g.f("param-ptrptr")
			return g.intType() + "** " + name
		case 20:
			if len(g.structs) > 0 {
				g.f("param-struct-array")
				return fmt.Sprintf("%s %s[%d]", g.pick(g.structs), name, 1+g.r.Intn(4))
			}
		case 21:
			if len(g.opaques) > 0 {
				g.f("param-opaque-ptrptr")
				return g.pick(g.opaques) + "** " + name
			}
		}
	}
}

func (g *hgen) cbParam(name string) string {
	if g.more && g.p(25) {
		switch g.r.Intn(5) {
		case 0:
			if len(g.structs) > 0 && g.ok("cb-struct") {
				return g.pick(g.structs) + " " + name
			}
		case 1:
			if len(g.opaques) > 0 && g.ok("cb-opaque") {
				return g.pick(g.opaques) + "* " + name
			}
		case 2:
			if g.ok("cb-strings") {
				return "const char** " + name
			}
		case 3:
			if len(g.unions) > 0 && g.ok("cb-union") {
				return g.pick(g.unions) + "* " + name
			}
		case 4:
			if g.ok("cb-array") {
				return fmt.Sprintf("%s %s[%d]", g.intType(), name, 1+g.r.Intn(4))
			}
		}
	}
	for {
		switch g.r.Intn(8) {
		case 0, 1, 2:
			return g.intType() + " " + name
		case 3:
			return "const char* " + name
		case 4:
			return "void* " + name
		case 5:
			if len(g.structs) > 0 {
				g.f("cb-struct-ptr")
				return g.pick(g.structs) + "* " + name
			}
		case 6:
			if len(g.enums) > 0 && !g.tidy {
				return g.pick(g.enums) + " " + name
			}
		case 7:
			return g.intType() + "* " + name
		}
	}
}

func (g *hgen) ret() string {
	if g.more && g.p(25) {
		switch g.r.Intn(5) {
		case 0:
			if g.ok("ret-chars") {
				return "char*"
			}
		case 1:
			if len(g.unions) > 0 && g.ok("ret-union") {
				return g.pick(g.unions)
			}
		case 2:
			if g.ok("ret-strings") {
				return "const char**"
			}
		case 3:
			if len(g.structs) > 0 && g.ok("ret-const-struct-ptr") {
				return "const " + g.pick(g.structs) + "*"
			}
		case 4:
			if len(g.cbs) > 0 && g.ok("ret-callback") {
				return g.pick(g.cbs)
			}
		}
	}
	for {
		switch g.r.Intn(12) {
		case 0, 1, 2:
			return "void"
		case 3, 4:
			return g.intType()
		case 5:
			g.f("ret-string")
			return "const char*"
		case 6:
			return "void*"
		case 7:
			if len(g.structs) > 0 {
				g.f("ret-struct")
				return g.pick(g.structs)
			}
		case 8:
			if len(g.structs) > 0 {
				g.f("ret-struct-ptr")
				return g.pick(g.structs) + "*"
			}
		case 9:
			if len(g.opaques) > 0 {
				g.f("ret-opaque")
				return g.pick(g.opaques) + "*"
			}
		case 10:
			if len(g.enums) > 0 {
				return g.pick(g.enums)
			}
		case 11:
			g.f("ret-ptr")
			return g.intType() + "*"
		}
	}
}

func (g *hgen) enumBody() string {
	n := 1 + g.r.Intn(5)
	var out []string
	for i := 0; i < n; i++ {
		nm := g.ID("E")
		switch g.r.Intn(7) {
		case 0:
			out = append(out, fmt.Sprintf("%s = %d", nm, g.r.Intn(1000)))
		case 1:
			out = append(out, fmt.Sprintf("%s = 0x%x", nm, g.r.Intn(1<<16)))
		case 2:
			out = append(out, fmt.Sprintf("%s = 1 << %d", nm, g.r.Intn(20)))
		case 3:
			out = append(out, fmt.Sprintf("%s = -%d", nm, 1+g.r.Intn(100)))
		case 4:
			if i > 0 {
				prev := strings.Fields(out[i-1])[0]
				out = append(out, fmt.Sprintf("%s = %s + %d", nm, prev, 1+g.r.Intn(4)))
				continue
			}
			out = append(out, nm)
		default:
			out = append(out, nm)
		}
	}
	return "{ " + strings.Join(out, ", ") + " }"
}

// wild emits shapes whose bindings may not be valid Go, or that are refused;
// runs on them still have to be repeatable.
func (g *hgen) wild(w *strings.Builder) {
	g.f("wild")
	switch g.r.Intn(16) {
	case 0:
		fmt.Fprintf(w, "typedef struct { const char* names[%d]; int (*fn)(int, void*); } %s;\n", 1+g.r.Intn(4), g.id("wrec"))
	case 1:
		nm := g.id("wfn")
		fmt.Fprintf(w, "int %s(int mat[%d][%d], int (*cmp)(const void*, const void*));\n", nm, 1+g.r.Intn(3), 1+g.r.Intn(3))
		g.funcs = append(g.funcs, nm)
	case 2:
		if len(g.structs) > 0 {
			fmt.Fprintf(w, "extern %s %s;\n", g.pick(g.structs), g.id("wglob"))
		}
	case 3:
		fmt.Fprintf(w, "enum %s;\n", g.id("wenumfwd"))
	case 4:
		fmt.Fprintf(w, "typedef enum %s %s;\n", g.id("wenumfwd"), g.id("wenumt"))
	case 5:
		fmt.Fprintf(w, "static inline int %s(int a) { return a + 1; }\n", g.id("winl"))
	case 6:
		nm := g.id("wfn")
		fmt.Fprintf(w, "void %s(int type, int func, const char* range, int);\n", nm)
		g.funcs = append(g.funcs, nm)
	case 7:
		fmt.Fprintf(w, "typedef int %s[%d];\n", g.id("warr"), 1+g.r.Intn(6))
	case 8:
		if len(g.structs) > 0 {
			fmt.Fprintf(w, "typedef %s %s;\n", g.pick(g.structs), g.id("walias"))
		}
	case 9:
		if len(g.structs) > 0 {
			fmt.Fprintf(w, "%s** %s(%s*** ppp, const char*** strs);\n", g.pick(g.structs), g.id("wfn"), g.pick(g.structs))
		}
	case 10:
		fmt.Fprintf(w, "typedef struct { unsigned int a : 3; unsigned int b : 5; struct { int x; int y; } in; union { int i; float f; } u; } %s;\n", g.id("wbits"))
	case 11:
		fmt.Fprintf(w, "#define %s (1.5f * 2)\n#define %s 'c'\n#define %s ((int)5)\n", g.ID("W"), g.ID("W"), g.ID("W"))
	case 12:
		fmt.Fprintf(w, "int %s(const char* fmt, ...);\n", g.id("wvar"))
	case 13:
		if len(g.cbs) > 0 {
			fmt.Fprintf(w, "%s %s(%s cb, %s* pcb);\n", g.pick(g.cbs), g.id("wfn"), g.pick(g.cbs), g.pick(g.cbs))
		}
	case 14:
		a, b := g.id("wself"), g.id("wself")
		fmt.Fprintf(w, "struct %s; struct %s { struct %s* next; int v; }; struct %s { struct %s in[2]; struct %s* up; };\n", b, a, b, b, a, b)
		g.structs = append(g.structs, "struct "+a, "struct "+b)
	case 15:
		fmt.Fprintf(w, "static const int %s = %d;\nextern const char* const %s;\nextern int %s[4];\n", g.id("wconst"), g.r.Intn(99), g.id("wstr"), g.id("wints"))
	}
}

// item emits one random top level declaration.
func (g *hgen) item(w *strings.Builder) {
	if !g.tidy && g.p(12) {
		g.wild(w)
		return
	}
	if g.p(4) {
		g.f("host-macro")
		mac := g.pick([]string{"__SSE2__", "__LP64__", "__linux__", "__k8__", "__ELF__", "__INT_MAX__", "__x86_64__", "__GNUC__", "__SIZEOF_POINTER__", "__STDC_HOSTED__"})
		fmt.Fprintf(w, "#ifdef %s\n", mac)
		nf := len(g.funcs)
		g.fn(w)
		fmt.Fprintf(w, "#else\n")
		g.fn(w)
		fmt.Fprintf(w, "#endif\n")
		g.funcs = g.funcs[:nf]
		return
	}
	if g.odd && g.p(25) && g.oddItem(w) {
		return
	}
	if g.more && g.p(15) {
		switch g.r.Intn(8) {
		case 0:
			if len(g.structs) > 0 && g.ok("typedef-struct-alias") {
				nm := g.id("alias")
				fmt.Fprintf(w, "typedef %s %s;\n", g.pick(g.structs), nm)
				return
			}
		case 1:
			if len(g.structs) > 0 && g.ok("typedef-struct-ptr") {
				nm := g.id("sptr")
				fmt.Fprintf(w, "typedef %s* %s;\n", g.pick(g.structs), nm)
				g.ptrs = append(g.ptrs, nm)
				return
			}
		case 2:
			if g.ok("typedef-opaque-ptr") {
				nm := g.id("handle")
				fmt.Fprintf(w, "typedef struct %s_s* %s;\n", nm, nm)
				g.ptrs = append(g.ptrs, nm)
				return
			}
		case 3:
			if g.ok("typedef-void-ptr") {
				nm := g.id("vptr")
				fmt.Fprintf(w, "typedef void* %s;\n", nm)
				g.ptrs = append(g.ptrs, nm)
				return
			}
		case 4:
			if g.ok("union-tag") {
				nm := g.id("tuni")
				fmt.Fprintf(w, "union %s {\n\t%s a;\n\t%s b;\n};\n", nm, g.pick(plainInts), g.pick(plainInts))
				g.unions = append(g.unions, "union "+nm)
				return
			}
		case 5:
			if len(g.enums) > 0 && g.ok("typedef-enum-alias") {
				nm := g.id("eal")
				fmt.Fprintf(w, "typedef %s %s;\n", g.pick(g.enums), nm)
				return
			}
		case 6:
			if g.ok("global-var") {
				fmt.Fprintf(w, "extern %s %s;\n", g.intType(), g.id("var"))
				return
			}
		case 7:
			if g.ok("typedef-string") {
				nm := g.id("str")
				fmt.Fprintf(w, "typedef const char* %s;\n", nm)
				g.ptrs = append(g.ptrs, nm)
				return
			}
		}
	}
	switch g.r.Intn(20) {
	case 0, 1: // defines
		nm := g.ID("D")
		switch g.r.Intn(9) {
		case 8:
			g.f("define-unresolved")
			fmt.Fprintf(w, "#define %s %s\n", nm, g.pick([]string{"no_such_name", "(no_such_fn(1))", "sizeof(int)", "(no_such + 1)"}))
			return
		case 0, 1:
			fmt.Fprintf(w, "#define %s %d\n", nm, g.r.Intn(100000))
		case 2:
			fmt.Fprintf(w, "#define %s 0x%X\n", nm, g.r.Intn(1<<24))
		case 3:
			g.f("define-string")
			fmt.Fprintf(w, "#define %s \"v%d.%d\"\n", nm, g.r.Intn(9), g.r.Intn(9))
		case 4:
			fmt.Fprintf(w, "#define %s %d.%d\n", nm, g.r.Intn(9), g.r.Intn(9))
		case 5:
			if len(g.consts) > 0 {
				g.f("define-expr")
				fmt.Fprintf(w, "#define %s (%s + %d)\n", nm, g.pick(g.consts), g.r.Intn(9))
			} else {
				fmt.Fprintf(w, "#define %s (1 << %d)\n", nm, g.r.Intn(12))
			}
		case 6:
			g.f("define-fn")
			fmt.Fprintf(w, "#define %s(a, b) ((a) + (b))\n", nm)
			return
		case 7:
			fmt.Fprintf(w, "#define %s\n", nm)
			return
		}
		if !strings.Contains(w.String()[strings.LastIndex(w.String(), "#define"):], "\"") && !strings.Contains(w.String()[strings.LastIndex(w.String(), "#define"):], ".") {
			g.consts = append(g.consts, nm)
		}
	case 2: // enum tag
		nm := g.id("enum")
		g.f("enum-tag")
		fmt.Fprintf(w, "enum %s %s;\n", nm, g.enumBody())
		g.enums = append(g.enums, "enum "+nm)
	case 3: // typedef enum
		nm := g.id("mode") + "_t"
		switch g.r.Intn(3) {
		case 0:
			g.f("enum-typedef-anon")
			fmt.Fprintf(w, "typedef enum %s %s;\n", g.enumBody(), nm)
		case 1:
			g.f("enum-typedef-same")
			fmt.Fprintf(w, "typedef enum %s %s %s;\n", nm, g.enumBody(), nm)
		case 2:
			g.f("enum-typedef-tag")
			fmt.Fprintf(w, "typedef enum %s_tag %s %s;\n", nm, g.enumBody(), nm)
		}
		g.enums = append(g.enums, nm)
	case 4: // anonymous enum
		g.f("enum-anon")
		fmt.Fprintf(w, "enum %s;\n", g.enumBody())
	case 5, 6: // typedef of plain
		nm := g.id("num")
		g.f("typedef-plain")
		it := g.intType()
		if it == "char" && !g.ok("typedef-char") {
			it = "int"
		}
		fmt.Fprintf(w, "typedef %s %s;\n", it, nm)
		g.ints = append(g.ints, nm)
	case 7: // opaque
		nm := g.id("obj")
		g.f("opaque")
		if g.p(60) {
			fmt.Fprintf(w, "typedef struct %s %s;\n", nm, nm)
		} else {
			fmt.Fprintf(w, "typedef struct %s_s %s;\n", nm, nm)
		}
		g.opaques = append(g.opaques, nm)
	case 8, 9, 10: // struct
		nm := g.id("rec")
		var b strings.Builder
		for i, n := 0, 1+g.r.Intn(6); i < n; i++ {
			fmt.Fprintf(&b, "\t%s;\n", g.member(fmt.Sprintf("m%d_val", i)))
		}
		switch g.r.Intn(4) {
		case 0:
			g.f("struct-tag")
			fmt.Fprintf(w, "struct %s {\n%s};\n", nm, b.String())
			g.structs = append(g.structs, "struct "+nm)
		case 1:
			g.f("struct-anon-typedef")
			fmt.Fprintf(w, "typedef struct {\n%s} %s;\n", b.String(), nm)
			g.structs = append(g.structs, nm)
		case 2:
			g.f("struct-typedef")
			fmt.Fprintf(w, "typedef struct %s {\n%s} %s;\n", nm, b.String(), nm)
			g.structs = append(g.structs, nm)
		case 3:
			g.f("struct-typedef-tag")
			fmt.Fprintf(w, "typedef struct %s_s {\n%s} %s;\n", nm, b.String(), nm)
			g.structs = append(g.structs, nm)
		}
	case 11: // union
		nm := g.id("uni")
		g.f("union")
		var b strings.Builder
		for i, n := 0, 1+g.r.Intn(3); i < n; i++ {
			fmt.Fprintf(&b, "\t%s u%d;\n", g.pick(plainInts), i)
		}
		if g.p(50) {
			fmt.Fprintf(w, "typedef union {\n%s} %s;\n", b.String(), nm)
			g.unions = append(g.unions, nm)
		} else {
			fmt.Fprintf(w, "typedef union %s {\n%s} %s;\n", nm, b.String(), nm)
			g.unions = append(g.unions, nm)
		}
	case 12, 13: // callback type
		nm := g.id("hook")
		g.f("callback")
		var ps []string
		for i, n := 0, g.r.Intn(4); i < n; i++ {
			ps = append(ps, g.cbParam(fmt.Sprintf("a%d", i)))
		}
		if len(ps) == 0 {
			ps = []string{"void"}
		}
		ret := "void"
		if g.p(60) {
			ret = g.intType()
		}
		fmt.Fprintf(w, "typedef %s (*%s)(%s);\n", ret, nm, strings.Join(ps, ", "))
		g.cbs = append(g.cbs, nm)
	case 14: // global const
		g.f("global-const")
		fmt.Fprintf(w, "extern const int %s;\n", g.id("glob"))
	default: // function
		g.fn(w)
	}
}

// oddItem emits one of the less usual top level declarations.
func (g *hgen) oddItem(w *strings.Builder) bool {
	k := []string{"odd-declarators", "odd-typedefs", "odd-struct-names", "odd-redeclared", "odd-unnamed", "odd-param-names", "odd-macros", "odd-enum-values", "odd-globals", "odd-function-body", "odd-anonymous-members", "odd-function-type", "odd-forward", "odd-mutual", "odd-array-size", "odd-types", "odd-near-names", "odd-const-params", "odd-return-only", "odd-wide"}[g.r.Intn(20)]
	if moreOnly != "" {
		k = moreOnly
	}
	if !strings.HasPrefix(k, "odd-") || !g.ok(k) {
		return false
	}
	it := func() string { return g.pick(plainInts) }
	switch k {
	case "odd-declarators":
		a, b := g.id("fn"), g.id("fn")
		fmt.Fprintf(w, "%s %s(%s a), %s(void);\n", it(), a, it(), b)
		g.funcs = append(g.funcs, a, b)
	case "odd-typedefs":
		a, b := g.id("num"), g.id("num")
		fmt.Fprintf(w, "typedef %s %s, %s;\n", g.pick([]string{"int", "unsigned int", "double", "uint8_t"}), a, b)
		g.ints = append(g.ints, a, b)
	case "odd-struct-names":
		a := g.id("rec")
		fmt.Fprintf(w, "typedef struct %s_s {\n\t%s;\n\t%s;\n} %s, *%s_p;\n", a, g.member("m0_val"), g.member("m1_val"), a, a)
		g.structs = append(g.structs, a)
	case "odd-redeclared":
		a, o := g.id("fn"), g.id("obj")
		d := fmt.Sprintf("%s %s(%s a);\n", it(), a, it())
		fmt.Fprintf(w, "%stypedef struct %s %s;\n%sstruct %s;\ntypedef struct %s %s;\n", d, o, o, d, o, o, o)
		g.funcs = append(g.funcs, a)
		g.opaques = append(g.opaques, o)
	case "odd-unnamed":
		a, c := g.id("fn"), g.id("hook")
		fmt.Fprintf(w, "%s %s(%s, const char*, %s*);\ntypedef %s (*%s)(%s, void*, const char*);\n", it(), a, it(), it(), it(), c, it())
		g.funcs = append(g.funcs, a)
		g.cbs = append(g.cbs, c)
	case "odd-param-names":
		a, c := g.id("fn"), g.id("hook")
		n := []string{"a", "ca", "cca", "ret", "v", "x", "len", "string", "type", "range", "mem0", "allocs", "caAllocMap"}
		if g.tidy { // the others meet names that bindings use themselves
			n = []string{"a", "v", "len", "string", "type", "range", "cap", "func", "map"}
		}
		g.r.Shuffle(len(n), func(i, j int) { n[i], n[j] = n[j], n[i] })
		fmt.Fprintf(w, "%s %s(%s %s, const char* %s, %s* %s);\ntypedef %s (*%s)(%s %s, %s %s);\n", it(), a, it(), n[0], n[1], it(), n[2], it(), c, it(), n[3], it(), n[4])
		g.funcs = append(g.funcs, a)
		g.cbs = append(g.cbs, c)
	case "odd-macros":
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			v := []string{"-1", "(-7)", "~0", "(~3)", "10L", "0x10UL", "077", "'c'", "1.5f", "2e3", "(1 | 2)", "(3 << 2)", "(5 * (2 + 1))", "\"a\\\"b\"", "'\\n'", "100000000000LL", "0xFFFFFFFFu"}
			s := g.pick(v)
			if len(g.ints) > 0 && g.p(30) {
				s = fmt.Sprintf("((%s)%s)", g.pick(g.ints), g.pick([]string{"5", "(1 + 2)", "0x7"}))
			}
			fmt.Fprintf(w, "#define %s %s\n", g.ID("D"), s)
		}
	case "odd-enum-values":
		a := g.id("mode") + "_t"
		v := []string{"(1 << 3)", "(1 | 4)", "~0", "-(3)", "'c'", "(int)5", "0x10u", "(2 + 3) * 2", "077", "sizeof(int)"}
		if g.tidy {
			v = []string{"(1 << 3)", "(1 | 4)", "-(3)", "0x10", "(2 + 3) * 2", "~0"}
		}
		var ms []string
		for i, n := 0, 1+g.r.Intn(4); i < n; i++ {
			ms = append(ms, g.ID("E")+" = "+g.pick(v))
			if g.p(40) {
				ms = append(ms, g.ID("E"))
			}
		}
		fmt.Fprintf(w, "typedef enum { %s } %s;\n", strings.Join(ms, ", "), a)
		g.enums = append(g.enums, a)
	case "odd-globals":
		switch {
		case len(g.unions) > 0 && g.p(35):
			fmt.Fprintf(w, "extern %s %s;\n", g.pick(g.unions), g.id("var"))
		case len(g.structs) > 0 && g.p(50):
			fmt.Fprintf(w, "extern const %s %s;\nextern %s* %s;\n", g.pick(g.structs), g.id("var"), g.pick(g.structs), g.id("var"))
		default:
			fmt.Fprintf(w, "extern %s %s, %s[3];\nextern const char* %s;\n", it(), g.id("var"), g.id("var"), g.id("var"))
		}
		if len(g.enums) > 0 {
			fmt.Fprintf(w, "extern %s %s;\n", g.pick(g.enums), g.id("var"))
		}
	case "odd-function-body":
		a := g.id("fn")
		fmt.Fprintf(w, "%sint %s(int a, int b) { return a * b; }\n", g.pick([]string{"static ", "static inline ", "inline "}), a)
		g.funcs = append(g.funcs, a)
	case "odd-anonymous-members":
		a := g.id("rec")
		fmt.Fprintf(w, "typedef struct {\n\tint m0_val;\n\tunion { int i; float f; };\n\tstruct { int x; int y; };\n\tunsigned b0 : 3, b1 : 5;\n\tint : 0;\n\tint m1_val;\n} %s;\n", a)
		g.structs = append(g.structs, a)
	case "odd-function-type":
		a, f := g.id("ft"), g.id("fn")
		fmt.Fprintf(w, "typedef %s %s(%s a, void* b);\n%s %s(%s* cb, void* user);\n", it(), a, it(), it(), f, a)
		g.funcs = append(g.funcs, f)
	case "odd-forward":
		a, f := g.id("rec"), g.id("fn")
		fmt.Fprintf(w, "typedef struct %s_s %s;\n%s %s(%s* a);\nstruct %s_s {\n\t%s;\n\t%s* next;\n};\n", a, a, it(), f, a, a, g.member("m0_val"), a)
		g.structs = append(g.structs, a)
		g.funcs = append(g.funcs, f)
	case "odd-mutual":
		a, b := g.id("rec"), g.id("rec")
		fmt.Fprintf(w, "struct %s;\ntypedef struct %s {\n\tstruct %s* other;\n\tint m1_val;\n} %s;\ntypedef struct %s {\n\t%s* back;\n\t%s self;\n} %s;\n", b, a, b, a, b, a, a, b)
		g.structs = append(g.structs, a, b)
	case "odd-array-size":
		a, n := g.id("rec"), g.ID("D")
		fmt.Fprintf(w, "#define %s %d\ntypedef struct {\n\t%s m0_val[%s];\n\t%s m1_val[%s][2];\n\tchar m2_val[%s + 1];\n} %s;\n", n, 2+g.r.Intn(5), it(), n, it(), n, n, a)
		fmt.Fprintf(w, "%s %s(%s a[%s]);\n", it(), g.id("fn"), it(), n)
		g.structs = append(g.structs, a)
	case "odd-types":
		a := g.id("fn")
		ty := []string{"_Bool", "int8_t", "int16_t", "uint16_t", "int64_t", "uint32_t", "uintptr_t", "intptr_t", "ptrdiff_t", "long double", "wchar_t", "unsigned"}
		fmt.Fprintf(w, "%s %s(%s a, %s* b);\n", g.pick(ty), a, g.pick(ty), g.pick(ty))
		g.funcs = append(g.funcs, a)
	case "odd-near-names":
		a := g.id("fn")
		fmt.Fprintf(w, "int %s_one(int a);\nint %s_One(int a);\nint %s_ONE(int a);\n", a, a, a)
		g.funcs = append(g.funcs, a+"_one")
	case "odd-const-params":
		a := g.id("fn")
		fmt.Fprintf(w, "void %s(const %s a, %s const * b, const void* const c, const char* const d, volatile int* e);\n", a, it(), it())
		g.funcs = append(g.funcs, a)
	case "odd-return-only":
		if len(g.structs) == 0 {
			return false
		}
		a, s := g.id("fn"), g.pick(g.structs)
		fmt.Fprintf(w, "%s %s_v(void);\n%s* %s_p(int);\nconst %s* %s_c(void);\n", s, a, s, a, s, a)
		g.funcs = append(g.funcs, a+"_v", a+"_p")
	case "odd-wide":
		a := g.id("fn")
		var ps []string
		for i, n := 0, 8+g.r.Intn(9); i < n; i++ {
			ps = append(ps, g.param(fmt.Sprintf("arg%d", i)))
		}
		fmt.Fprintf(w, "%s %s(%s);\n", g.ret(), a, strings.Join(ps, ", "))
		g.funcs = append(g.funcs, a)
	}
	return true
}

func (g *hgen) fn(w *strings.Builder) {
	nm := g.id("fn")
	g.f("func")
	var ps []string
	for i, n := 0, g.r.Intn(5); i < n; i++ {
		if len(g.ptrs) > 0 && g.p(15) {
			g.f("param-ptr-typedef")
			ps = append(ps, fmt.Sprintf("%s arg%d", g.pick(g.ptrs), i))
			continue
		}
		ps = append(ps, g.param(fmt.Sprintf("arg%d", i)))
	}
	if g.fparams == nil {
		g.fparams = map[string][]string{}
	}
	g.fparams[nm] = append([]string(nil), ps...)
	if len(ps) == 0 {
		ps = []string{"void"}
	}
	fmt.Fprintf(w, "%s %s(%s);\n", g.ret(), nm, strings.Join(ps, ", "))
	g.funcs = append(g.funcs, nm)
}

var moreProb, oddProb, moreOnly = 60, 40, os.Getenv("VMORE")

type m = map[string]any

var ptrTips = []string{"ref", "arr", "sref", "0"}

// genInput builds a random invocation.
func genInput(seed int64, o genOpt) *Input {
	r := rand.New(rand.NewSource(seed))
	in := &Input{Seed: seed, Files: map[string]string{}}
	nm := o.manifests
	if nm == 0 {
		nm = 1
		if r.Intn(6) == 0 {
			nm = 2
		}
	}
	feat := map[string]bool{}
	nocgo := o.noCGO == 1 || (o.noCGO == 0 && r.Intn(12) == 0)
	for i := 0; i < nm; i++ {
		genManifest(r, in, i, o, feat, nocgo)
	}
	if nocgo {
		in.Args = append(in.Args, "-nocgo")
		feat["nocgo"] = true
	}
	if o.allowCC && r.Intn(4) == 0 {
		in.Args = append(in.Args, "-ccdefs")
		feat["ccdefs"] = true
	}
	if o.allowCC && r.Intn(4) == 0 {
		in.Args = append(in.Args, "-ccincl")
		feat["ccincl"] = true
	}
	if r.Intn(5) == 0 {
		in.Args = append(in.Args, "-maxmem", []string{"0x1fffffff", "0x3fffffff", "0xffffffff"}[r.Intn(3)])
		feat["maxmem"] = true
	}
	if r.Intn(3) == 0 {
		in.Args = append(in.Args, "-fancy=false")
	} else {
		feat["spinner"] = true
	}
	if r.Intn(8) == 0 {
		in.Args = append(in.Args, "-debug")
		feat["debug"] = true
	}
	for f := range feat {
		in.Feat = append(in.Feat, f)
	}
	sort.Strings(in.Feat)
	return in
}

var largeOnly = os.Getenv("VLARGE") != "" // for trying the generator

func genManifest(r *rand.Rand, in *Input, idx int, o genOpt, feat map[string]bool, nocgo bool) {
	pfx := []string{"vt", "qz", "kw", "lp"}[idx%4]
	PFX := strings.ToUpper(pfx)
	g := &hgen{r: r, pfx: pfx, feat: feat, tidy: o.tidy, more: r.Intn(100) < moreProb, odd: r.Intn(100) < oddProb}
	sparse := r.Intn(20) == 0 // nothing but functions
	if sparse {
		g.f("functions-only")
	}
	nh := 1 + r.Intn(3)
	if o.small {
		nh = 1
	}
	var incl []string
	var srcs []string
	var ignored []string
	for h := 0; h < nh; h++ {
		var w strings.Builder
		name := fmt.Sprintf("%s_%c.h", pfx, 'a'+h)
		fmt.Fprintf(&w, "#ifndef %s_%c_H\n#define %s_%c_H\n#include <stdint.h>\n#include <stddef.h>\n", PFX, 'A'+h, PFX, 'A'+h)
		if h > 0 {
			fmt.Fprintf(&w, "#include \"%s_%c.h\"\n", pfx, 'a'+h-1)
		}
		items := 6 + r.Intn(26)
		if o.small {
			items = 4 + r.Intn(8)
		}
		if r.Intn(8) == 0 {
			items *= 3
		}
		if h == 0 && !o.small && (r.Intn(30) == 0 || largeOnly) {
			items = 200 + r.Intn(500)
			g.f("large-header")
		}
		joined := 0
		for k := 0; k < items; k++ {
			var one strings.Builder
			if sparse {
				g.fn(&one)
			} else {
				g.item(&one)
			}
			t := one.String()
			if joined == 0 && g.p(15) {
				joined = 2 + r.Intn(5) // the next few declarations share a line
				g.f("one-line")
			}
			if joined > 0 && !strings.ContainsAny(t, "#/") {
				joined--
				t = strings.ReplaceAll(t, "\n", " ")
				if joined == 0 {
					t += "\n"
				}
			} else if joined > 0 {
				t = "\n" + t
			}
			w.WriteString(t)
		}
		w.WriteString("\n")
		if h == nh-1 {
			for len(g.funcs) < 2 {
				g.fn(&w)
			}
		}
		fmt.Fprintf(&w, "#endif\n")
		in.Files[name] = w.String()
		incl = append(incl, name)
		srcs = append(srcs, name)
	}
	if nh > 1 && r.Intn(3) == 0 {
		// only the last header is listed, the others arrive by inclusion
		srcs = srcs[nh-1:]
		feat["nested-include"] = true
	}
	if nh > 1 && !o.tidy && r.Intn(8) == 0 {
		ignored = append(ignored, "/"+incl[0])
		feat["ignored-path"] = true
	}
	pkg := fmt.Sprintf("%spkg", pfx)
	dir := pkg
	if r.Intn(8) == 0 {
		dir = "sub/" + pkg
		feat["nested-package"] = true
	}
	G := m{"PackageName": dir}
	if r.Intn(2) == 0 {
		G["PackageDescription"] = "Package " + pkg + " is generated."
	}
	if r.Intn(2) == 0 {
		G["PackageLicense"] = "THE LICENSE\nline two"
	}
	G["Includes"] = incl
	if r.Intn(3) == 0 {
		G["SysIncludes"] = []string{"stdint.h", "stddef.h", "stdlib.h"}[:1+r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		G["FlagGroups"] = []m{{"name": "CFLAGS", "flags": []string{"-I.", "-DVTFLAG=1"}}, {"name": "LDFLAGS", "traits": []string{"linux"}, "flags": []string{"-lm"}}}
	}
	opts := m{}
	for _, k := range []string{"SafeStrings", "StructAccessors", "KeepAlive"} {
		if r.Intn(3) == 0 {
			opts[k] = true
			feat["opt-"+k] = true
		}
	}
	if len(opts) > 0 {
		G["Options"] = opts
	}
	if !o.compile && (r.Intn(8) == 0 || o.pkgconf) {
		// a library found through pkg-config files, one requiring the other
		G["PkgConfigOpts"] = []string{"--static", pfx + "lib", pfx + "-missing"}[r.Intn(2) : 2+r.Intn(2)]
		if o.pkgconf {
			G["PkgConfigOpts"] = []string{"--static", pfx + "lib"}[r.Intn(2):]
		}
		lib := "prefix=<root>/in\nincludedir=${prefix}/inc_" + pfx + "\nName: " + pfx + "lib\n"
		if r.Intn(2) == 0 {
			lib += "Requires: " + pfx + "base >= 1.0\nCflags: -I${prefix}/unused -DX=1\n"
			in.Files["pc/"+pfx+"base.pc"] = "prefix=<root>/in\nName: base\nCflags: -I${prefix}/inc_" + pfx + "\n"
		} else {
			lib += "Cflags: -I${includedir}\n"
		}
		in.Files["pc/"+pfx+"lib.pc"] = lib
		if opts := G["PkgConfigOpts"].([]string); opts[0] == pfx+"lib" || len(opts) > 1 && opts[1] == pfx+"lib" {
			in.Files["inc_"+pfx+"/"+pfx+"_pc.h"] = "#ifndef " + PFX + "_PC_H\n#define " + PFX + "_PC_H\ntypedef unsigned int " + pfx + "_pcnum;\nint " + pfx + "_pcfn(" + pfx + "_pcnum a);\n#endif\n"
			h := in.Files[incl[0]]
			in.Files[incl[0]] = strings.Replace(h, "#include <stddef.h>\n", "#include <stddef.h>\n#include \""+pfx+"_pc.h\"\n", 1)
		}
		feat["pkgconfig"] = true
	}

	P := m{"SourcesPaths": srcs}
	if r.Intn(2) == 0 {
		P["IncludePaths"] = []string{"/usr/include"}
	} else {
		P["IncludePaths"] = []string{"/usr/include", "/usr/include/x86_64-linux-gnu"}
	}
	if r.Intn(6) == 0 {
		P["SysIncludePaths"] = []string{"/usr/include/x86_64-linux-gnu", "/usr/include"}[r.Intn(2):]
	}
	if o.oldHost {
		sys, _ := P["SysIncludePaths"].([]string)
		P["SysIncludePaths"] = append(sys[:len(sys):len(sys)], "<root>/in/hostold")
	}
	if !o.tidy && r.Intn(12) == 0 {
		P["Arch"] = g.pick([]string{"386", "arm64", "amd64", "arm", "nothing"})
		feat["arch"] = true
	}
	if len(ignored) > 0 {
		P["IgnoredPaths"] = ignored
	}
	if !o.compile && r.Intn(3) == 0 {
		d := m{}
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			switch r.Intn(4) {
			case 3:
				d[fmt.Sprintf("%s_CFG%d", PFX, i)] = 0.5 + float64(r.Intn(9))
			case 0:
				d[fmt.Sprintf("%s_CFG%d", PFX, i)] = r.Intn(100)
			case 1:
				d[fmt.Sprintf("%s_CFG%d", PFX, i)] = "str"
			case 2:
				d[fmt.Sprintf("%s_CFG%d", PFX, i)] = m{}
			}
		}
		P["Defines"] = d
		feat["parser-defines"] = true
	}

	acc := fmt.Sprintf("(?i)^%s_", pfx)
	rules := m{}
	global := []m{{"action": "accept", "from": acc}}
	if r.Intn(2) == 0 {
		global = append(global, m{"action": "replace", "from": "(?i)^" + pfx + "_", "to": "_"})
	}
	global = append(global, m{"transform": "export"})
	rules["global"] = global
	if r.Intn(2) == 0 {
		rules["const"] = []m{{"transform": "lower"}, {"transform": "export"}}[:1+r.Intn(2)]
	}
	if r.Intn(3) == 0 {
		rules["type"] = []m{{"action": "replace", "from": "_t$", "to": "Type"}}
	}
	if !o.tidy && r.Intn(3) == 0 {
		rules["function"] = []m{{"load": g.pick([]string{"doc.file", "doc.google"})}, {"action": "replace", "from": "_w?fn", "to": "_call_", "transform": g.pick([]string{"title", "upper", "lower"})}}
		rules["public"] = []m{{"transform": "export"}, {"action": "ignore", "from": "_wglob"}}
		feat["rule-doc"] = true
	} else if r.Intn(3) == 0 && len(g.funcs) > 2 {
		rules["function"] = []m{{"action": "ignore", "from": "^" + g.funcs[0] + "$"}}
		feat["rule-ignore"] = true
	}
	rules["private"] = []m{{"transform": "unexport"}}
	if r.Intn(2) == 0 {
		rules["post-global"] = []m{{"transform": "export"}, {"load": "snakecase"}}
		feat["rule-snakecase"] = true
	}
	T := m{"Rules": rules}
	cr := m{}
	modes := []string{"expand", "cgo", "eval"}
	if r.Intn(2) == 0 {
		cr["defines"] = modes[r.Intn(3)]
	} else {
		cr["defines"] = "expand"
	}
	if r.Intn(2) == 0 {
		cr["enum"] = modes[r.Intn(3)]
	}
	if r.Intn(3) == 0 {
		cr["decl"] = modes[r.Intn(3)]
	}
	T["ConstRules"] = cr
	tips := m{}
	if r.Intn(2) == 0 && len(g.funcs) > 0 {
		var fs []m
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			fn := g.pick(g.funcs)
			tips := []string{g.pick(ptrTips), g.pick(ptrTips)}
			if o.tidy {
				for i := range tips {
					if i >= len(g.fparams[fn]) || !strings.Contains(g.fparams[fn][i], "* ") || strings.Contains(g.fparams[fn][i], "char") {
						tips[i] = "0"
					}
				}
			}
			fs = append(fs, m{"target": "^" + fn + "$", "tips": tips})
		}
		tips["function"] = fs
		feat["ptrtips-function"] = true
	}
	if r.Intn(3) == 0 && len(g.structs) > 0 {
		tips["struct"] = []m{{"target": strings.TrimPrefix(g.pick(g.structs), "struct "), "tips": []string{g.pick([]string{"ref", "arr", "sref"})}}}
		feat["ptrtips-struct"] = true
	}
	if r.Intn(3) == 0 {
		tips["type"] = []m{{"target": "^" + pfx + "_rec", "tips": []string{g.pick([]string{"ref", "arr", "sref"})}}}
		feat["ptrtips-type"] = true
	}
	if r.Intn(3) == 0 {
		d := g.pick([]string{"ref", "arr", "sref"})
		if o.tidy {
			d = "arr"
		}
		tips["any"] = []m{{"target": "^" + pfx + "_", "default": d}}
		feat["ptrtips-any"] = true
	}
	overlap := func(sc string, in m, pick []string) {
		if l, ok := in[sc].([]m); ok && !o.tidy && r.Intn(3) == 0 {
			// more than one target fits, the first one counts
			x := m{"target": g.pick([]string{"_", "^" + pfx, "[0-9]$", "."}), "tips": []string{g.pick(pick), g.pick(pick)}, "default": g.pick(pick)}
			if r.Intn(2) == 0 {
				in[sc] = append(l, x)
			} else {
				in[sc] = append([]m{x}, l...)
			}
			feat["tips-overlap"] = true
		}
	}
	for _, sc := range []string{"function", "struct", "type", "any"} {
		overlap(sc, tips, ptrTips)
	}
	if len(tips) > 0 {
		T["PtrTips"] = tips
	}
	tt := m{}
	if r.Intn(3) == 0 {
		d := g.pick([]string{"plain", "named"})
		if o.tidy {
			d = "named"
		}
		tt["type"] = []m{{"target": "^" + pfx + "_num", "default": d}}
		feat["typetips-type"] = true
	}
	if r.Intn(3) == 0 && len(g.funcs) > 0 {
		tt["function"] = []m{{"target": "^" + g.pick(g.funcs) + "$", "tips": []string{g.pick([]string{"plain", "named", "0"})}}}
		feat["typetips-function"] = true
	}
	if r.Intn(4) == 0 {
		tt["struct"] = []m{{"target": "^" + pfx + "_rec", "tips": []string{g.pick([]string{"plain", "named"})}}}
		feat["typetips-struct"] = true
	}
	if !o.tidy && r.Intn(5) == 0 {
		tt["any"] = []m{{"target": "^" + pfx + "_", "default": g.pick([]string{"plain", "named"})}}
	}
	for _, sc := range []string{"function", "struct", "type", "any"} {
		overlap(sc, tt, []string{"plain", "named", "string", "unsigned", "0"})
	}
	if len(tt) > 0 {
		T["TypeTips"] = tt
	}
	if r.Intn(4) == 0 && len(g.structs) > 0 && !(o.tidy && (opts["StructAccessors"] == true || len(tips) > 0)) {
		T["MemTips"] = []m{{"target": "^" + strings.TrimPrefix(g.pick(g.structs), "struct ") + "$", "self": "raw"}}
		feat["memtips"] = true
	}
	if r.Intn(4) == 0 && len(g.funcs) > 1 {
		vs := []m{{"validatefunc": "vtValidate", "ret": "", "matchedfunc": "^zzz$"}}
		if !o.tidy {
			// the first that matches counts, and several may
			vs = nil
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				f := g.pick(g.funcs)
				mf := []string{f, "^" + f + "$", "^" + f[:len(f)-1], "^" + pfx + "_", "[0-9]$", "(?i)" + strings.ToUpper(f)}[r.Intn(6)]
				vs = append(vs, m{"validatefunc": fmt.Sprintf("vtValidate%d", i), "ret": g.pick([]string{"", "0", "nil"}), "matchedfunc": mf})
			}
		}
		T["Validations"] = vs
	}
	if r.Intn(4) == 0 {
		T["ConstCharIsString"] = r.Intn(2) == 0
		feat["constcharstring"] = true
	}
	if r.Intn(5) == 0 {
		T["Typemap"] = m{}
	}
	if !o.tidy && r.Intn(4) == 0 {
		T["ConstUCharIsString"] = r.Intn(2) == 0
		T["LenFields"] = map[string]string{pfx + "_rec1.m0_val": "m1_val", pfx + "_rec2.m1_val": "m0_val"}
	}
	if !o.tidy && r.Intn(4) == 0 && len(g.funcs) > 0 {
		tips["function"] = []m{{"target": g.pick(g.funcs), "tips": []string{"inst", "ref", "inst"}}}
		tt["any"] = []m{{"target": "_a", "tips": []string{g.pick([]string{"string", "unsigned"})}}}
		tt["enum"] = []m{{"target": "mode", "default": "plain"}}
		T["PtrTips"], T["TypeTips"] = tips, tt
		feat["tips-inst"] = true
	}
	if !o.small && r.Intn(6) == 0 {
		// headers found through the include paths
		d := "hdr_" + pfx
		for _, n := range incl {
			in.Files[d+"/"+n] = in.Files[n]
			delete(in.Files, n)
		}
		P["IncludePaths"] = append([]string{"<root>/in/" + d}, P["IncludePaths"].([]string)...)
		feat["include-path"] = true
	}
	mf := m{"GENERATOR": G, "PARSER": P, "TRANSLATOR": T}
	enc := marshal
	if r.Intn(3) > 0 {
		enc = marshalBlock
		feat["manifest-block"] = true
	}
	b := enc(mf)
	mn := pkg + ".yml"
	if r.Intn(8) == 0 && !o.small || o.confDir {
		// configuration found through its directory
		d := pkg + "conf"
		mn = d + "/" + g.pick([]string{"c-for-go.yaml", "c-for-go.yml", d + ".yaml", d + ".yml"})
		P["IncludePaths"] = append(P["IncludePaths"].([]string), "<root>/in")
		b = enc(mf)
		in.Files[mn] = string(b) + "\n"
		in.Manifests = append(in.Manifests, d)
		in.Pkgs = append(in.Pkgs, dir)
		feat["config-dir"] = true
		return
	}
	in.Files[mn] = string(b) + "\n"
	in.Manifests = append(in.Manifests, mn)
	in.Pkgs = append(in.Pkgs, dir)
	if in.confs == nil {
		in.confs, in.enc = map[string]m{}, map[string]func(any) []byte{}
	}
	in.confs[mn], in.enc[mn] = mf, enc
}

// marshal renders without HTML escapes, so that <root> survives.
func marshal(v any) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	if err := e.Encode(v); err != nil {
		panic(err)
	}
	return bytes.TrimRight(b.Bytes(), "\n")
}

// marshalBlock renders in YAML block style, the way manifests are written by
// hand: cut off at the end of a line it is often still a valid manifest.
func marshalBlock(v any) []byte {
	var x any
	if err := json.Unmarshal(marshal(v), &x); err != nil {
		panic(err)
	}
	var b bytes.Buffer
	b.WriteString("---\n")
	blockYAML(&b, x, "")
	return bytes.TrimRight(b.Bytes(), "\n")
}

func blockYAML(b *bytes.Buffer, x any, ind string) {
	inline := func(v any) (string, bool) {
		switch t := v.(type) {
		case m:
			return "{}", len(t) == 0
		case []any:
			return "[]", len(t) == 0
		}
		return string(marshal(v)), true
	}
	switch t := x.(type) {
	case m:
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if s, ok := inline(t[k]); ok {
				fmt.Fprintf(b, "%s%s: %s\n", ind, marshal(k), s)
				continue
			}
			fmt.Fprintf(b, "%s%s:\n", ind, marshal(k))
			blockYAML(b, t[k], ind+"  ")
		}
	case []any:
		for _, v := range t {
			if s, ok := inline(v); ok {
				fmt.Fprintf(b, "%s- %s\n", ind, s)
				continue
			}
			fmt.Fprintf(b, "%s-\n", ind)
			blockYAML(b, v, ind+"  ")
		}
	}
}
