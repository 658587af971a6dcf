package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"regexp"
	"slices"
	"strings"
)

// A shape is a generated C library with its header, the manifest that binds
// it, and the harness operations that call the bindings and know, from the
// header alone, what has to arrive where.

type bScalar struct {
	c, g string
	k    byte // s signed, u unsigned, f float, b bool, e enum
}

var bScalars = []bScalar{
	{"signed char", "int8", 's'}, {"unsigned char", "byte", 'u'}, {"short", "int16", 's'}, {"unsigned short", "uint16", 'u'},
	{"int", "int32", 's'}, {"unsigned int", "uint32", 'u'}, {"long", "int64", 's'}, {"unsigned long", "uint64", 'u'},
	{"int32_t", "int32", 's'}, {"int64_t", "int64", 's'}, {"uint64_t", "uint64", 'u'}, {"uint32_t", "uint32", 'u'},
	{"uint16_t", "uint16", 'u'}, {"int16_t", "int16", 's'}, {"int8_t", "int8", 's'}, {"uint8_t", "byte", 'u'},
	{"size_t", "uint64", 'u'}, {"float", "float32", 'f'}, {"double", "float64", 'f'}, {"long long", "int64", 's'},
	{"unsigned long long", "uint64", 'u'}, {"bool", "bool", 'b'},
}

type bStruct struct {
	c, g   string
	fields []*bField
	flat   bool // no pointers inside
	reuse  bool // can be passed again after Free
	cbs    bool
	raw    bool
	inner  bool // Go memory referenced from C memory
}

type bEnum struct {
	c, g string
	vals []int
}

type bUnion struct{ c, g string }

type bCallback struct {
	c, g   string
	ret    *bParam // nil: void
	params []*bParam
}

type bField struct {
	kind string
	c, g string // names
	sc   bScalar
	n, m int
	st   *bStruct
	en   *bEnum
	un   *bUnion
	cb   *bCallback
}

type bParam = bField

// m2 makes arrays of arrays of objects square, the only ones the generator
// makes type-correct bindings for.
func (f *bField) m2() {
	if f.kind == "nestedarr2" || f.kind == "strarr2" {
		f.m = f.n
	}
}

type bFunc struct {
	c, g   string
	params []*bParam
	ret    *bParam
	kind   string
	alter  bool // strs are replaced by C
	cbOf   *bCallback
	cbsOf  *bStruct
}

type bShape struct {
	r       *rand.Rand
	enums   []*bEnum
	unions  []*bUnion
	structs []*bStruct
	raws    []*bStruct
	cbs     []*bCallback
	funcs   []*bFunc
	uniq    int
	gostr   bool // C strings are Go strings everywhere, not only as parameters
	lens    bool // lengths of slices in structs are known to the bindings
	access  bool // accessors of raw structs
	unsafe  bool // no safe strings
	macros  bool // sizes of arrays are macros
	seed    int64
	nums    []bScalar
	numDefs []string
}

func (s *bShape) id() int { s.uniq++; return s.uniq }

func (s *bShape) scalar() bScalar {
	if len(s.nums) > 0 && s.p(20) {
		return s.nums[s.r.Intn(len(s.nums))]
	}
	return bScalars[s.r.Intn(len(bScalars))]
}

// vscalar is a scalar usable as element of vectors.
func (s *bShape) vscalar() bScalar {
	for {
		sc := s.scalar()
		if sc.k != 'b' {
			return sc
		}
	}
}

// rscalar is an element of rows. Helpers for slices of slices are named after
// the Go type alone, so that a shape uses one C type per Go type here.
func (s *bShape) rscalar() bScalar {
	l := []bScalar{bScalars[8], bScalars[9], bScalars[10], bScalars[17], bScalars[18]}
	return l[s.r.Intn(len(l))]
}

func (s *bShape) p(pc int) bool { return s.r.Intn(100) < pc }

func bGoName(c string) string { // vt_s0 -> S0, n_a0 -> NA0
	var b strings.Builder
	for _, w := range strings.Split(strings.TrimPrefix(c, "vt_"), "_") {
		b.WriteString(strings.ToUpper(w[:1]) + w[1:])
	}
	return b.String()
}

func newShape(seed int64) *bShape {
	s := &bShape{r: rand.New(rand.NewSource(seed*7919 + 3))}
	s.seed = seed
	s.gostr, s.lens, s.access, s.unsafe = s.p(50), s.p(50), s.p(60), s.p(25)
	s.macros = s.p(30)
	for i := 0; i < 1+s.r.Intn(2); i++ {
		e := &bEnum{c: fmt.Sprintf("vt_e%d", i), g: fmt.Sprintf("E%d", i)}
		v := 0
		for j := 0; j < 2+s.r.Intn(4); j++ {
			v += 1 + s.r.Intn(50)
			e.vals = append(e.vals, v)
		}
		s.enums = append(s.enums, e)
	}
	for i := 0; i < s.r.Intn(3); i++ {
		// a type named after a plain one
		sc := bScalars[s.r.Intn(len(bScalars)-1)]
		n := bScalar{c: fmt.Sprintf("vt_n%d", i), g: fmt.Sprintf("N%d", i), k: sc.k}
		s.numDefs = append(s.numDefs, fmt.Sprintf("typedef %s %s;", sc.c, n.c))
		s.nums = append(s.nums, n)
	}
	s.nums = append(s.nums, bScalar{c: s.enums[0].c, g: s.enums[0].g, k: 'e'})
	for i := 0; i < 1+s.r.Intn(2); i++ {
		s.unions = append(s.unions, &bUnion{c: fmt.Sprintf("vt_u%d", i), g: fmt.Sprintf("U%d", i)})
	}
	for i := 0; i < 3+s.r.Intn(2); i++ {
		s.structs = append(s.structs, s.mkStruct(i, i == 0))
	}
	for i := 0; i < 2+s.r.Intn(2); i++ {
		s.cbs = append(s.cbs, s.mkCallback(i))
	}
	ops := &bStruct{c: fmt.Sprintf("vt_s%d", len(s.structs)), cbs: true, reuse: true}
	ops.g = bGoName(ops.c)
	ops.fields = append(ops.fields, &bField{kind: "scalar", c: "a0", g: "A0", sc: bScalars[4]})
	for i, cb := range s.cbs {
		ops.fields = append(ops.fields, &bField{kind: "callback", c: fmt.Sprintf("f%d", i), g: fmt.Sprintf("F%d", i), cb: cb})
	}
	ops.fields = append(ops.fields, &bField{kind: "string", c: "b0", g: "B0"})
	s.structs = append(s.structs, ops)
	s.raws = append(s.raws, s.mkRaw(0))
	s.mkFuncs()
	return s
}

func (s *bShape) mkRaw(i int) *bStruct {
	x := &bStruct{c: fmt.Sprintf("vt_r%d", i), g: fmt.Sprintf("R%d", i), flat: true, raw: true}
	for j := 0; j < 2+s.r.Intn(4); j++ {
		f := &bField{kind: "scalar", c: fmt.Sprintf("a%d", j), sc: s.vscalar()}
		if s.p(30) {
			f.kind, f.n = "array", 1+s.r.Intn(5)
		}
		x.fields = append(x.fields, f)
	}
	return x
}

func (s *bShape) mkStruct(i int, flat bool) *bStruct {
	x := &bStruct{c: fmt.Sprintf("vt_s%d", i), flat: true, reuse: true}
	x.g = bGoName(x.c)
	kinds := []string{"scalar", "scalar", "enum", "array"}
	if !flat {
		kinds = []string{"scalar", "enum", "array", "nested", "nestedarr", "ptr", "string", "string", "vec", "vec", "list", "strs", "rows", "void", "union", "handle", "array2", "nestedarr2", "ref", "uref", "lists2"}
		if s.gostr {
			kinds = append(kinds, "strarr", "string", "strarr2", "strs2")
		}
	}
	n := 2 + s.r.Intn(3)
	if !flat {
		n = 4 + s.r.Intn(5)
	}
	for j := 0; j < n; j++ {
		k := kinds[s.r.Intn(len(kinds))]
		f := &bField{kind: k, c: fmt.Sprintf("a%d", j), g: fmt.Sprintf("A%d", j)}
		switch k {
		case "scalar":
			f.sc = s.scalar()
		case "array":
			f.sc, f.n = s.vscalar(), 1+s.r.Intn(6)
		case "array2":
			f.sc, f.n, f.m = s.vscalar(), 1+s.r.Intn(3), 1+s.r.Intn(3)
		case "vec", "ref":
			f.sc = s.vscalar()
		case "rows":
			f.sc = s.rscalar()
		case "enum":
			f.en = s.enums[s.r.Intn(len(s.enums))]
		case "union", "uref":
			f.un = s.unions[s.r.Intn(len(s.unions))]
		case "nested", "nestedarr", "ptr", "list", "nestedarr2", "lists2":
			f.st = s.structs[s.r.Intn(len(s.structs))]
			f.n = 1 + s.r.Intn(3)
			if k == "nestedarr2" {
				f.n = 1 + s.r.Intn(2)
			}
		case "strarr", "strarr2":
			f.n = 1 + s.r.Intn(3)
		}
		f.m2()
		switch k {
		case "scalar", "enum", "array", "array2", "union", "void", "handle":
		case "nested", "nestedarr", "nestedarr2":
			x.flat = x.flat && f.st.flat
			x.reuse = x.reuse && f.st.reuse
			x.inner = x.inner || f.st.inner
		default:
			x.flat = false
			if k == "ptr" {
				x.reuse = false
			}
			if k == "list" || k == "lists2" {
				x.reuse = x.reuse && f.st.reuse
			}
			if k == "strs" || k == "rows" || k == "ref" || k == "uref" || f.st != nil && f.st.inner {
				x.inner = true
			}
		}
		x.fields = append(x.fields, f)
	}
	return x
}

func (s *bShape) mkCallback(i int) *bCallback {
	c := &bCallback{c: fmt.Sprintf("vt_c%d", i), g: fmt.Sprintf("C%d", i)}
	kinds := []string{"scalar", "scalar", "enum", "string", "void", "ptr", "value", "handle", "uref", "fixed"}
	for j := 0; j < 1+s.r.Intn(5); j++ {
		k := kinds[s.r.Intn(len(kinds))]
		f := &bField{kind: k, c: fmt.Sprintf("p%d", j), g: fmt.Sprintf("p%d", j)}
		switch k {
		case "scalar":
			f.sc = s.vscalar()
		case "enum":
			f.en = s.enums[s.r.Intn(len(s.enums))]
		case "ptr", "value":
			f.st = s.structs[s.r.Intn(len(s.structs))]
		case "uref":
			f.un = s.unions[s.r.Intn(len(s.unions))]
		case "fixed":
			f.sc, f.n = s.vscalar(), 1+s.r.Intn(5)
		}
		c.params = append(c.params, f)
	}
	switch s.r.Intn(7) {
	case 5:
		c.ret = &bField{kind: "ptr", st: s.structs[s.r.Intn(len(s.structs))]}
	case 6:
		c.ret = &bField{kind: "handle"}
	case 0:
	case 1:
		c.ret = &bField{kind: "enum", en: s.enums[0]}
	case 2:
		c.ret = &bField{kind: "cstr"}
	default:
		c.ret = &bField{kind: "scalar", sc: s.vscalar()}
	}
	return c
}

func (s *bShape) param(j int) *bParam {
	kinds := []string{"scalar", "scalar", "enum", "string", "string", "vec", "vec", "fixed", "strs", "rows", "ref", "ptr", "value", "list", "uval", "uref", "void", "handle", "rawptr", "rawlist", "lists2"}
	if s.gostr {
		kinds = append(kinds, "strs2", "strarr")
	}
	f := &bParam{kind: kinds[s.r.Intn(len(kinds))], c: fmt.Sprintf("p%d", j), g: fmt.Sprintf("p%d", j)}
	switch f.kind {
	case "scalar":
		f.sc = s.scalar()
	case "vec", "ref", "fixed":
		f.sc, f.n = s.vscalar(), 1+s.r.Intn(5)
	case "rows":
		f.sc = s.rscalar()
	case "enum":
		f.en = s.enums[s.r.Intn(len(s.enums))]
	case "uval", "uref":
		f.un = s.unions[s.r.Intn(len(s.unions))]
	case "ptr", "value":
		f.st = s.structs[s.r.Intn(len(s.structs))]
	case "list", "lists2":
		f.st = s.structs[0]
	case "strarr":
		f.n = 1 + s.r.Intn(3)
	case "rawptr", "rawlist":
		f.st = s.raws[0]
	}
	return f
}

func (s *bShape) retv() *bParam {
	switch s.r.Intn(12) {
	case 8:
		return &bParam{kind: "vecret", sc: s.vscalar(), n: 1 + s.r.Intn(4)}
	case 9:
		return &bParam{kind: "handle"}
	case 10:
		return &bParam{kind: "uval", un: s.unions[0]}
	case 11:
		return &bParam{kind: "uref", un: s.unions[0]}
	case 0:
		return nil
	case 1:
		return &bParam{kind: "enum", en: s.enums[0]}
	case 2, 3:
		return &bParam{kind: "cstr"}
	case 4:
		return &bParam{kind: "void"}
	}
	return &bParam{kind: "scalar", sc: s.scalar()}
}

func (s *bShape) mkFuncs() {
	add := func(f *bFunc) {
		f.g = bGoName(f.c)
		for _, p := range f.params {
			if p.kind == "value" {
				f.kind = "value"
			}
		}
		s.funcs = append(s.funcs, f)
	}
	for i := 0; i < 12; i++ {
		f := &bFunc{c: fmt.Sprintf("vt_f%d", i), kind: "call", ret: s.retv(), alter: s.p(40)}
		n := 1 + s.r.Intn(5)
		for j := 0; j < n; j++ {
			f.params = append(f.params, s.param(j))
		}
		add(f)
	}
	for i, st := range s.structs {
		add(&bFunc{c: fmt.Sprintf("vt_use%d", i), kind: "call", ret: s.retv(), params: []*bParam{{kind: "ptr", c: "p0", g: "p0", st: st}}})
		add(&bFunc{c: fmt.Sprintf("vt_val%d", i), kind: "value", ret: s.retv(), params: []*bParam{{kind: "value", c: "p0", g: "p0", st: st}}})
		if st.flat {
			add(&bFunc{c: fmt.Sprintf("vt_list%d", i), kind: "call", ret: s.retv(), params: []*bParam{{kind: "list", c: "p0", g: "p0", st: st}}})
		}
		if !st.cbs {
			add(&bFunc{c: fmt.Sprintf("vt_get%d", i), kind: "call", ret: &bParam{kind: "ptr", st: st}, params: []*bParam{{kind: "scalar", c: "p0", g: "p0", sc: bScalars[4]}}})
			add(&bFunc{c: fmt.Sprintf("vt_make%d", i), kind: "call", ret: &bParam{kind: "value", st: st}, params: []*bParam{{kind: "string", c: "p0", g: "p0"}}})
		}
	}
	for i, cb := range s.cbs {
		add(&bFunc{c: fmt.Sprintf("vt_run%d", i), kind: "cb", cbOf: cb, ret: &bParam{kind: "scalar", sc: bScalars[4]}, params: []*bParam{
			{kind: "callback", c: "p0", g: "p0", cb: cb}, {kind: "scalar", c: "p1", g: "p1", sc: bScalars[4]}, {kind: "string", c: "p2", g: "p2"}}})
	}
	ops := s.structs[len(s.structs)-1]
	for i, st := range s.structs {
		if !st.flat && !st.cbs && !st.inner && st.owns() {
			add(&bFunc{c: fmt.Sprintf("vt_plist%d", i), kind: "probe", ret: nil, params: []*bParam{{kind: "list", c: "p0", g: "p0", st: st}}})
			break
		}
	}
	for _, cb := range s.cbs {
		if s.gostr && cb.ret != nil && cb.ret.kind == "cstr" {
			add(&bFunc{c: "vt_slow", kind: "probe", cbOf: cb, ret: &bParam{kind: "scalar", sc: bScalars[4]}, params: []*bParam{{kind: "callback", c: "p0", g: "p0", cb: cb}}})
			break
		}
	}
	add(&bFunc{c: "vt_runall", kind: "cb", cbsOf: ops, ret: &bParam{kind: "scalar", sc: bScalars[4]}, params: []*bParam{{kind: "ptr", c: "p0", g: "p0", st: ops}}})
}

// C source

func (s *bShape) cRand(sc bScalar) string {
	switch sc.k {
	case 'f':
		return fmt.Sprintf("((%s)((int64_t)(zz_mix(s) %% 2000001) - 1000000) / 8)", sc.c)
	case 'b':
		return "((bool)(zz_mix(s) & 1))"
	case 'e':
		return fmt.Sprintf("((%s)(zz_mix(s) %% 1000))", sc.c)
	}
	return fmt.Sprintf("((%s)zz_mix(s))", sc.c)
}

func cPut(sc bScalar, e string) string {
	switch sc.k {
	case 'f':
		return fmt.Sprintf("zz_put(b, \"%%lld,\", (long long)(%s * 8));", e)
	case 'u':
		return fmt.Sprintf("zz_put(b, \"%%llu,\", (unsigned long long)%s);", e)
	}
	return fmt.Sprintf("zz_put(b, \"%%lld,\", (long long)%s);", e)
}

func cDecl(f *bField) string {
	switch f.kind {
	case "scalar":
		return f.sc.c + " " + f.c
	case "enum":
		return f.en.c + " " + f.c
	case "array", "fixed":
		return fmt.Sprintf("%s %s[%d]", f.sc.c, f.c, f.n)
	case "array2":
		return fmt.Sprintf("%s %s[%d][%d]", f.sc.c, f.c, f.n, f.m)
	case "nestedarr2":
		return fmt.Sprintf("%s %s[%d][%d]", f.st.c, f.c, f.n, f.m)
	case "strarr2":
		return fmt.Sprintf("const char *%s[%d][%d]", f.c, f.n, f.m)
	case "strs2":
		return "const char ***" + f.c
	case "lists2":
		return f.st.c + " **" + f.c
	case "vecret":
		return f.sc.c + " *" + f.c
	case "nested", "value":
		return f.st.c + " " + f.c
	case "nestedarr":
		return fmt.Sprintf("%s %s[%d]", f.st.c, f.c, f.n)
	case "ptr", "rawptr":
		return f.st.c + " *" + f.c
	case "string":
		return "const char *" + f.c
	case "ref":
		return f.sc.c + " *" + f.c
	case "void":
		return "void *" + f.c
	case "handle":
		return "vt_hd *" + f.c
	case "union", "uval":
		return f.un.c + " " + f.c
	case "uref":
		return f.un.c + " *" + f.c
	case "callback":
		return f.cb.c + " " + f.c
	case "vec":
		return f.sc.c + " *" + f.c
	case "list", "rawlist":
		return f.st.c + " *" + f.c
	case "strs":
		return "const char **" + f.c
	case "strarr":
		return fmt.Sprintf("const char *%s[%d]", f.c, f.n)
	case "rows":
		return f.sc.c + " **" + f.c
	}
	panic(f.kind)
}

func counted(f *bField) bool {
	switch f.kind {
	case "vec", "list", "strs", "rows", "rawlist", "strs2", "lists2":
		return true
	}
	return false
}

// retC is the C type of a result.
func retC(f *bParam) string {
	if f == nil {
		return "void"
	}
	switch f.kind {
	case "cstr":
		return "const char *"
	case "value":
		return f.st.c + " "
	case "ptr":
		return f.st.c + " *"
	}
	g := *f
	g.c = ""
	return cDecl(&g)
}

// cDump writes the text of expression e (of the kind of f), n its count.
func (s *bShape) cDump(f *bField, e, n string) string {
	i := fmt.Sprintf("i%d", s.id())
	j := fmt.Sprintf("i%d", s.id())
	switch f.kind {
	case "scalar":
		return cPut(f.sc, e)
	case "enum":
		return fmt.Sprintf("zz_put(b, \"%%lld,\", (long long)%s);", e)
	case "array":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) { %s }", i, i, f.n, i, cPut(f.sc, e+"["+i+"]"))
	case "array2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) { %s }", i, i, f.n, i, j, j, f.m, j, cPut(f.sc, e+"["+i+"]["+j+"]"))
	case "nestedarr2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) d_%s(b, &%s[%s][%s]);", i, i, f.n, i, j, j, f.m, j, f.st.c, e, i, j)
	case "strarr2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) zz_chars(b, %s[%s][%s]);", i, i, f.n, i, j, j, f.m, j, e, i, j)
	case "strs2", "lists2":
		one := fmt.Sprintf("zz_chars(b, %s[%s][%s]);", e, i, j)
		size := "char *"
		if f.kind == "lists2" {
			one, size = fmt.Sprintf("d_%s(b, &%s[%s][%s]);", f.st.c, e, i, j), f.st.c
		}
		return fmt.Sprintf("zz_put(b, \"[\"); if (zz_ok(b, %s, sizeof(void *) * %s)) for (int %s = 0; %s < (int)%s; %s++) { zz_put(b, \"(\"); if (zz_ok(b, %s[%s], sizeof(%s) * 2)) for (int %s = 0; %s < 2; %s++) { %s } zz_put(b, \")\"); } zz_put(b, \"]\");",
			e, n, i, i, n, i, e, i, size, j, j, j, one)
	case "vecret":
		return fmt.Sprintf("zz_put(b, \"[\"); if (zz_ok(b, %s, sizeof(%s) * %d)) for (int %s = 0; %s < %d; %s++) { %s } zz_put(b, \"]\");", e, f.sc.c, f.n, i, i, f.n, i, cPut(f.sc, e+"["+i+"]"))
	case "fixed":
		return fmt.Sprintf("if (zz_ok(b, %s, sizeof(%s) * %d)) for (int %s = 0; %s < %d; %s++) { %s }", e, f.sc.c, f.n, i, i, f.n, i, cPut(f.sc, e+"["+i+"]"))
	case "nested", "value":
		return fmt.Sprintf("d_%s(b, &%s);", f.st.c, e)
	case "nestedarr":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) d_%s(b, &%s[%s]);", i, i, f.n, i, f.st.c, e, i)
	case "ptr", "rawptr":
		return fmt.Sprintf("d_%s(b, %s);", f.st.c, e)
	case "string", "cstr":
		return fmt.Sprintf("zz_chars(b, %s);", e)
	case "ref":
		return fmt.Sprintf("if (zz_ok(b, %s, sizeof(*%s))) { %s }", e, e, cPut(f.sc, "*"+e))
	case "void", "handle":
		return fmt.Sprintf("zz_userdump(b, (void *)%s);", e)
	case "union", "uval":
		return fmt.Sprintf("zz_hex(b, &%s, sizeof(%s));", e, f.un.c)
	case "uref":
		return fmt.Sprintf("if (zz_ok(b, %s, sizeof(%s))) zz_hex(b, %s, sizeof(%s));", e, f.un.c, e, f.un.c)
	case "callback":
		return fmt.Sprintf("zz_put(b, \"cb%%d,\", %s != 0);", e)
	case "vec":
		return fmt.Sprintf("zz_put(b, \"[\"); if (zz_ok(b, %s, sizeof(%s) * %s)) for (int %s = 0; %s < (int)%s; %s++) { %s } zz_put(b, \"]\");", e, f.sc.c, n, i, i, n, i, cPut(f.sc, e+"["+i+"]"))
	case "list", "rawlist":
		return fmt.Sprintf("zz_put(b, \"[\"); if (zz_ok(b, %s, sizeof(%s) * %s)) for (int %s = 0; %s < (int)%s; %s++) d_%s(b, &%s[%s]); zz_put(b, \"]\");", e, f.st.c, n, i, i, n, i, f.st.c, e, i)
	case "strs":
		return fmt.Sprintf("zz_put(b, \"[\"); if (zz_ok(b, %s, sizeof(char *) * %s)) for (int %s = 0; %s < (int)%s; %s++) zz_chars(b, %s[%s]); zz_put(b, \"]\");", e, n, i, i, n, i, e, i)
	case "strarr":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) zz_chars(b, %s[%s]);", i, i, f.n, i, e, i)
	case "rows":
		return fmt.Sprintf("zz_put(b, \"[\"); if (zz_ok(b, %s, sizeof(void *) * %s)) for (int %s = 0; %s < (int)%s; %s++) { zz_put(b, \"(\"); if (zz_ok(b, %s[%s], sizeof(%s) * 3)) for (int %s = 0; %s < 3; %s++) { %s } zz_put(b, \")\"); } zz_put(b, \"]\");",
			e, n, i, i, n, i, e, i, f.sc.c, j, j, j, cPut(f.sc, e+"["+i+"]["+j+"]"))
	}
	panic(f.kind)
}

func (s *bShape) cMut(f *bField, e, n string, fn *bFunc) string {
	i := fmt.Sprintf("i%d", s.id())
	j := fmt.Sprintf("i%d", s.id())
	en := func(e string) string {
		if f.en == nil {
			return ""
		}
		var vs []string
		for _, v := range f.en.vals {
			vs = append(vs, fmt.Sprint(v))
		}
		return fmt.Sprintf("{ static const int ev[] = {%s}; %s = (%s)ev[zz_mix(s) %% %d]; }", strings.Join(vs, ","), e, f.en.c, len(vs))
	}
	inFn := fn != nil
	switch f.kind {
	case "scalar":
		if inFn {
			return ""
		}
		return fmt.Sprintf("%s = %s;", e, s.cRand(f.sc))
	case "enum":
		if inFn {
			return ""
		}
		return en(e)
	case "array", "fixed":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) %s[%s] = %s;", i, i, f.n, i, e, i, s.cRand(f.sc))
	case "array2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) %s[%s][%s] = %s;", i, i, f.n, i, j, j, f.m, j, e, i, j, s.cRand(f.sc))
	case "nestedarr2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) m_%s(&%s[%s][%s], s);", i, i, f.n, i, j, j, f.m, j, f.st.c, e, i, j)
	case "strarr2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) if (%s[%s][%s]) for (char *q = (char *)%s[%s][%s]; *q; q++) *q = 'a' + (*q + 1) %% 26;", i, i, f.n, i, j, j, f.m, j, e, i, j, e, i, j)
	case "strs2", "lists2":
		one := fmt.Sprintf("if (%s[%s][%s]) for (char *q = (char *)%s[%s][%s]; *q; q++) *q = 'a' + (*q + 1) %% 26;", e, i, j, e, i, j)
		if f.kind == "lists2" {
			one = fmt.Sprintf("m_%s(&%s[%s][%s], s);", f.st.c, e, i, j)
		} else if inFn {
			if !fn.alter {
				return ""
			}
			one = fmt.Sprintf("%s[%s][%s] = zz_static(zz_mix(s));", e, i, j)
		}
		return fmt.Sprintf("if (%s) for (int %s = 0; %s < (int)%s; %s++) if (%s[%s]) for (int %s = 0; %s < 2; %s++) { %s }", e, i, i, n, i, e, i, j, j, j, one)
	case "vecret":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) %s[%s] = %s;", i, i, f.n, i, e, i, s.cRand(f.sc))
	case "handle":
		if inFn {
			return ""
		}
		return fmt.Sprintf("%s = (vt_hd *)zz_user(zz_mix(s) %% 60);", e)
	case "nested":
		return fmt.Sprintf("m_%s(&%s, s);", f.st.c, e)
	case "nestedarr":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) m_%s(&%s[%s], s);", i, i, f.n, i, f.st.c, e, i)
	case "ptr", "rawptr":
		return fmt.Sprintf("if (%s) m_%s(%s, s);", e, f.st.c, e)
	case "string":
		if inFn {
			return ""
		}
		return fmt.Sprintf("if (%s) for (char *q = (char *)%s; *q; q++) *q = 'a' + (*q + 1) %% 26;", e, e)
	case "strarr":
		if inFn {
			if !fn.alter {
				return ""
			}
			return fmt.Sprintf("if (%s) for (int %s = 0; %s < %d; %s++) %s[%s] = zz_static(zz_mix(s));", e, i, i, f.n, i, e, i)
		}
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) if (%s[%s]) for (char *q = (char *)%s[%s]; *q; q++) *q = 'a' + (*q + 1) %% 26;", i, i, f.n, i, e, i, e, i)
	case "ref":
		return fmt.Sprintf("if (%s) *%s = %s;", e, e, s.cRand(f.sc))
	case "void":
		if inFn {
			return ""
		}
		return fmt.Sprintf("%s = zz_user(zz_mix(s) %% 60);", e)
	case "union":
		return fmt.Sprintf("zz_rnd(&%s, sizeof(%s), s);", e, f.un.c)
	case "uref":
		return fmt.Sprintf("if (%s) zz_rnd(%s, sizeof(%s), s);", e, e, f.un.c)
	case "vec":
		return fmt.Sprintf("if (%s) for (int %s = 0; %s < (int)%s; %s++) %s[%s] = %s;", e, i, i, n, i, e, i, s.cRand(f.sc))
	case "list", "rawlist":
		return fmt.Sprintf("if (%s) for (int %s = 0; %s < (int)%s; %s++) m_%s(&%s[%s], s);", e, i, i, n, i, f.st.c, e, i)
	case "strs":
		if inFn {
			if !fn.alter {
				return ""
			}
			return fmt.Sprintf("if (%s) for (int %s = 0; %s < (int)%s; %s++) %s[%s] = zz_static(zz_mix(s));", e, i, i, n, i, e, i)
		}
		return fmt.Sprintf("if (%s) for (int %s = 0; %s < (int)%s; %s++) if (%s[%s]) for (char *q = (char *)%s[%s]; *q; q++) *q = 'a' + (*q + 1) %% 26;", e, i, i, n, i, e, i, e, i)
	case "rows":
		swap := ""
		if inFn && fn.alter {
			swap = fmt.Sprintf("if (%s && %s > 1 && zz_mix(s) %% 2) { void *q = (void *)%s[0]; %s[0] = %s[%s - 1]; %s[%s - 1] = q; } ", e, n, e, e, e, n, e, n)
		}
		return swap + fmt.Sprintf("if (%s) for (int %s = 0; %s < (int)%s; %s++) if (%s[%s]) for (int %s = 0; %s < 3; %s++) %s[%s][%s] = %s;", e, i, i, n, i, e, i, j, j, j, e, i, j, s.cRand(f.sc))
	}
	return ""
}

// none is the absence of a string: a Go string is never NULL.
func (s *bShape) none() string {
	if s.gostr {
		return "\"\""
	}
	return "0"
}

// cFill gives e a value C owns.
func (s *bShape) cFill(f *bField, e, n string) string {
	i := fmt.Sprintf("i%d", s.id())
	alloc := func(t string) string {
		return fmt.Sprintf("%s = zz_mix(s) %% 5; %s = zz_own(sizeof(%s) * (%s + 1));", n, e, t, n)
	}
	j := fmt.Sprintf("i%d", s.id())
	switch f.kind {
	case "ref":
		return fmt.Sprintf("if (zz_mix(s) %% 4) { %s = zz_own(sizeof *%s); *%s = %s; } else %s = 0;", e, e, e, s.cRand(f.sc), e)
	case "uref":
		return fmt.Sprintf("if (zz_mix(s) %% 4) { %s = zz_own(sizeof *%s); zz_rnd(%s, sizeof *%s, s); } else %s = 0;", e, e, e, e, e)
	case "nestedarr2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) fill_%s(&%s[%s][%s], s);", i, i, f.n, i, j, j, f.m, j, f.st.c, e, i, j)
	case "strarr2":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) for (int %s = 0; %s < %d; %s++) %s[%s][%s] = zz_mix(s) %% 5 ? zz_static(zz_mix(s)) : \"\";", i, i, f.n, i, j, j, f.m, j, e, i, j)
	case "strs2":
		return alloc("void *") + fmt.Sprintf("for (int %s = 0; %s < (int)%s; %s++) { %s[%s] = zz_own(sizeof(char *) * 2); for (int %s = 0; %s < 2; %s++) %s[%s][%s] = zz_static(zz_mix(s)); }", i, i, n, i, e, i, j, j, j, e, i, j)
	case "lists2":
		return alloc("void *") + fmt.Sprintf("for (int %s = 0; %s < (int)%s; %s++) { %s[%s] = zz_own(sizeof(%s) * 2); for (int %s = 0; %s < 2; %s++) fill_%s(&%s[%s][%s], s); }", i, i, n, i, e, i, f.st.c, j, j, j, f.st.c, e, i, j)
	case "ptr":
		return fmt.Sprintf("if (zz_mix(s) %% 4) { %s = zz_own(sizeof(%s)); fill_%s(%s, s); } else %s = 0;", e, f.st.c, f.st.c, e, e)
	case "nested":
		return fmt.Sprintf("fill_%s(&%s, s);", f.st.c, e)
	case "nestedarr":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) fill_%s(&%s[%s], s);", i, i, f.n, i, f.st.c, e, i)
	case "string":
		return fmt.Sprintf("%s = zz_mix(s) %% 5 ? zz_static(zz_mix(s)) : %s;", e, s.none())
	case "strarr":
		return fmt.Sprintf("for (int %s = 0; %s < %d; %s++) %s[%s] = zz_mix(s) %% 5 ? zz_static(zz_mix(s)) : \"\";", i, i, f.n, i, e, i)
	case "vec":
		return alloc(f.sc.c) + s.cMut(f, e, n, nil)
	case "list":
		return alloc(f.st.c) + fmt.Sprintf("for (int %s = 0; %s < (int)%s; %s++) fill_%s(&%s[%s], s);", i, i, n, i, f.st.c, e, i)
	case "strs":
		return alloc("char *") + fmt.Sprintf("for (int %s = 0; %s < (int)%s; %s++) %s[%s] = zz_static(zz_mix(s));", i, i, n, i, e, i)
	case "rows":
		return alloc("void *") + fmt.Sprintf("for (int %s = 0; %s < (int)%s; %s++) %s[%s] = zz_own(sizeof(%s) * 3);", i, i, n, i, e, i, f.sc.c) + s.cMut(f, e, n, nil)
	}
	return s.cMut(f, e, n, nil)
}

func cParams(f *bFunc) string {
	ps := []string{"int32_t ticket"}
	for _, p := range f.params {
		ps = append(ps, cDecl(p))
		if counted(p) {
			ps = append(ps, "uint32_t n_"+p.c)
		}
	}
	return strings.Join(ps, ", ")
}

func (cb *bCallback) cParams() string {
	ps := []string{"int32_t ticket"}
	for _, p := range cb.params {
		ps = append(ps, cDecl(p))
	}
	return strings.Join(ps, ", ")
}

func (s *bShape) header() string {
	var b strings.Builder
	f := func(format string, a ...any) { fmt.Fprintf(&b, format+"\n", a...) }
	f("#ifndef VT_H\n#define VT_H\n#include <stddef.h>\n#include <stdint.h>\n#include <stdbool.h>\n")
	for _, d := range s.numDefs {
		f("%s", d)
	}
	f("typedef struct vt_hd vt_hd;\n")
	for _, e := range s.enums {
		f("typedef enum %s {", e.c)
		for i, v := range e.vals {
			f("\tVT_%s_V%d = %d,", strings.ToUpper(e.c[3:]), i, v)
		}
		f("} %s;\n", e.c)
	}
	for _, u := range s.unions {
		f("typedef union %s {\n\tint32_t i;\n\tdouble d;\n\tunsigned char raw[%d];\n} %s;\n", u.c, 8*(1+int(u.c[4]-'0')), u.c)
	}
	st := func(x *bStruct) {
		f("typedef struct %s {", x.c)
		for _, fl := range x.fields {
			if counted(fl) {
				f("\tuint32_t n_%s;", fl.c)
			}
			f("\t%s;", cDecl(fl))
		}
		f("} %s;\n", x.c)
	}
	for _, x := range s.structs {
		if !x.cbs {
			st(x)
		}
	}
	for _, x := range s.raws {
		st(x)
	}
	for _, c := range s.cbs {
		f("typedef %s (*%s)(%s);", strings.TrimSpace(retC(c.ret)), c.c, s.protoParams(c.c, c.params, true))
	}
	for _, x := range s.structs {
		if x.cbs {
			st(x)
		}
	}
	for _, fn := range s.funcs {
		f("%s%s%s(%s);", strings.TrimSpace(retC(fn.ret)), " ", fn.c, s.protoParams(fn.c, fn.params, false))
	}
	f("#endif")
	text := b.String()
	if !s.macros {
		return text
	}
	// the sizes of arrays are macros
	var defs strings.Builder
	seen := map[string]bool{}
	i := strings.Index(text, "typedef struct vt_s0 ")
	text = text[:i] + sizeRx.ReplaceAllStringFunc(text[i:], func(n string) string {
		n = n[1 : len(n)-1]
		if !seen[n] {
			seen[n] = true
			fmt.Fprintf(&defs, "#define VT_SIZE%s %s\n", n, n)
		}
		return "[VT_SIZE" + n + "]"
	})
	return strings.Replace(text, "#include <stdbool.h>\n", "#include <stdbool.h>\n"+defs.String(), 1)
}

var sizeRx = regexp.MustCompile(`\[\d+\]`)

// protoParams is the parameter list as the header declares it, where the names
// may be missing, be words of Go or look like names bindings make.
func (s *bShape) protoParams(name string, params []*bParam, cb bool) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s", s.seed, name)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	var pool []string
	style := r.Intn(6)
	switch style {
	case 0:
		pool = []string{"a", "ca", "cca", "b", "cb", "ccb", "ccca", "cccb", "c", "cc", "ccc", "cccc"}
	case 1:
		pool = []string{"type", "range", "func", "map", "len", "string", "cap", "var", "go", "select", "import", "chan"}
	}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	ps := []string{"int32_t ticket"}
	named := func(f bField) {
		switch {
		case style == 2 && cb && f.kind == "scalar": // an unnamed const char* maps to *byte
			f.c = ""
		case len(pool) > 0:
			f.c, pool = pool[0], pool[1:]
		}
		ps = append(ps, strings.TrimSpace(cDecl(&f)))
	}
	for _, p := range params {
		named(*p)
		if !cb && counted(p) {
			named(bField{kind: "scalar", c: "n_" + p.c, sc: bScalar{c: "uint32_t"}})
		}
	}
	return strings.Join(ps, ", ")
}

func (s *bShape) manifest() string {
	var b strings.Builder
	f := func(format string, a ...any) { fmt.Fprintf(&b, format+"\n", a...) }
	f(`---
GENERATOR:
  PackageName: main
  PackageDescription: "simulated bindings"
  PackageLicense: "none"
  Includes: [vt.h]
  Options:
    SafeStrings: %v
    StructAccessors: %v
PARSER:
  IncludePaths: []
  SourcesPaths: [vt.h]
TRANSLATOR:
  ConstRules:
    defines: expand
    enum: expand`, !s.unsafe, s.access)
	if s.gostr {
		f("  Typemap:\n    ? {base: char, pointers: 1}\n    : {base: string}")
	}
	if s.lens {
		f("  LenFields:")
		for _, x := range s.structs {
			for _, fl := range x.fields {
				if fl.kind == "vec" {
					f("    %s.%s: n_%s", x.c, fl.c, fl.c)
				}
			}
		}
		f("    vt_none.x: y")
	}
	f("  PtrTips:\n    function:")
	tip := func(p *bParam) string {
		switch p.kind {
		case "vec", "fixed", "strs", "rows", "list", "rawlist", "strs2", "lists2", "strarr":
			return "arr"
		case "string", "ptr", "ref", "uref", "handle", "rawptr":
			return "ref"
		}
		return "0"
	}
	for _, fn := range s.funcs {
		tips := []string{"0"}
		for _, p := range fn.params {
			tips = append(tips, tip(p))
			if counted(p) {
				tips = append(tips, "0")
			}
		}
		self := ""
		if fn.ret != nil && fn.ret.kind == "ptr" {
			self = " self: ref,"
		} else if fn.ret != nil && fn.ret.kind == "vecret" {
			self = " self: arr,"
		}
		f("      - {target: \"^%s$\",%s default: ref, tips: [%s]}", fn.c, self, strings.Join(tips, ","))
	}
	for _, c := range s.cbs {
		tips := []string{"0"}
		for _, p := range c.params {
			tips = append(tips, tip(p))
		}
		f("      - {target: \"^%s$\", self: ref, tips: [%s]}", c.c, strings.Join(tips, ","))
	}
	f("      - {target: \"^vt_\", default: ref}\n    struct:")
	for _, x := range s.structs {
		var tips []string
		for _, fl := range x.fields {
			if counted(fl) {
				tips = append(tips, "0")
			}
			switch fl.kind {
			case "vec", "list", "strs", "rows", "strs2", "lists2":
				tips = append(tips, "arr")
			case "ptr", "handle", "ref", "uref":
				tips = append(tips, "ref")
			default:
				tips = append(tips, "0")
			}
		}
		f("      - {target: \"^%s$\", tips: [%s]}", x.c, strings.Join(tips, ","))
	}
	f("  TypeTips:\n    function:")
	for _, c := range s.cbs {
		tips := []string{"0"}
		for _, p := range c.params {
			if p.kind == "string" {
				tips = append(tips, "string")
			} else {
				tips = append(tips, "0")
			}
		}
		f("      - {target: \"^%s$\", tips: [%s]}", c.c, strings.Join(tips, ","))
	}
	f("  MemTips:")
	for _, x := range s.raws {
		f("    - {target: \"^%s$\", default: raw}", x.c)
	}
	f(`  Rules:
    global:
      - {action: accept, from: "^vt_"}
      - {action: accept, from: "^VT_"}
      - {action: replace, from: "(?i)^vt_", to: "_"}
      - {transform: lower}
      - {load: snakecase}
      - {transform: export}
    private:
      - {transform: unexport}
    const:
      - {action: replace, from: "_$"}`)
	return b.String()
}

func (s *bShape) csource() string {
	var b strings.Builder
	f := func(format string, a ...any) { fmt.Fprintf(&b, format+"\n", a...) }
	f("#include <string.h>\n#include \"vt.h\"\n#include \"zz_rt.h\"\n#include \"zz_vt.h\"\nextern void zzPoint(int32_t tk, int32_t where);\nextern void zzCollect(void);\n")
	all := append(append([]*bStruct{}, s.structs...), s.raws...)
	for _, x := range all {
		f("static void d_%s(zz_buf *b, const %s *x) {\n\tif (!zz_ok(b, x, sizeof *x)) return;\n\tzz_put(b, \"{\");", x.c, x.c)
		for _, fl := range x.fields {
			f("\t%s", s.cDump(fl, "x->"+fl.c, "x->n_"+fl.c))
		}
		f("\tzz_put(b, \"}\");\n}")
		f("static void m_%s(%s *x, uint64_t *s) {\n\t(void)s;", x.c, x.c)
		for _, fl := range x.fields {
			if fl.kind != "callback" {
				f("\t%s", s.cMut(fl, "x->"+fl.c, "x->n_"+fl.c, nil))
			}
		}
		f("}")
		if !x.cbs && !x.raw {
			f("static void fill_%s(%s *x, uint64_t *s) {", x.c, x.c)
			for _, fl := range x.fields {
				f("\t%s", s.cFill(fl, "x->"+fl.c, "x->n_"+fl.c))
			}
			f("}")
		}
		f("char *zz_look_%s(void *p) { zz_buf l = {0}; zz_put(&l, \"%%s\", \"\"); d_%s(&l, p); return l.p; }", x.c, x.c)
		f("void zz_fill_%s(void *p, uint64_t seed) { m_%s(p, &seed); }", x.c, x.c)
	}
	for fi, fn := range s.funcs {
		ret := strings.TrimSpace(retC(fn.ret))
		var names []string
		for _, p := range fn.params {
			names = append(names, p.c)
			if counted(p) {
				names = append(names, "n_"+p.c)
			}
		}
		args := strings.Join(names, ", ")
		pdecl := strings.TrimPrefix(cParams(fn), "int32_t ticket")
		f("static void t_%s(zz_buf *b%s) {", fn.c, pdecl)
		for _, p := range fn.params {
			n := "n_" + p.c
			if p.kind == "callback" {
				continue
			}
			f("\t%s", s.cDump(p, p.c, n))
		}
		f("}\n%s %s(%s) {", ret, fn.c, cParams(fn))
		f("\tzz_buf b0 = {0}, *b = &b0;\n\tuint64_t s0 = (uint64_t)ticket * 1000003 + %d, *s = &s0;\n\t(void)s;", fi)
		f("\tzz_begin(ticket, \"%s\");", fn.c)
		if fn.cbOf != nil || fn.cbsOf != nil {
			f("\tzz_buf e = {0}, r = {0};\n\tzz_put(&e, \"\"); zz_put(&r, \"\");")
			if fn.kind == "probe" {
				f("%s", s.cCall(fn.cbOf, "p0", true))
			} else if fn.cbOf != nil {
				// C holds on to the functions and may call one it got earlier
				f("\tstatic %s kept;\n\tif (p0 && ((uint32_t)p1 >> 2 & 3) == 0) kept = p0;\n\tif (kept && ((uint32_t)p1 >> 4 & 1)) p0 = kept;", fn.cbOf.c)
				f("\tif (p0) for (int k = 0; k < (int)(((uint32_t)p1 & 3) + 1); k++) {\n%s\t}", s.cCall(fn.cbOf, "p0", false))
			} else {
				for _, fl := range fn.cbsOf.fields {
					if fl.kind == "callback" {
						f("\tif (zz_ok(b, p0, sizeof *p0) && p0->%s) {\n%s\t}", fl.c, s.cCall(fl.cb, "p0->"+fl.c, false))
					}
				}
			}
			f("\tzz_done(ticket, ZZ_RET, &r);\n\tzz_done(ticket, ZZ_ENTRY, &e);\n\treturn ticket;\n}")
			continue
		}
		call := fmt.Sprintf("t_%s(b%s)", fn.c, map[bool]string{true: "", false: ", " + args}[args == ""])
		f("\t%s; zz_done(ticket, ZZ_ENTRY, b);\n\tzzPoint(ticket, 0);", call)
		f("\t%s; zz_done(ticket, ZZ_AGAIN, b);\n\tint bad = zz_bad(ticket);", call)
		f("\tif (!bad) {")
		for _, p := range fn.params {
			if m := s.cMut(p, p.c, "n_"+p.c, fn); m != "" {
				f("\t\t%s", m)
			}
		}
		f("\t}\n\tzzPoint(ticket, 1);\n\t%s; zz_done(ticket, ZZ_EXIT, b);", call)
		if fn.ret != nil {
			switch fn.ret.kind {
			case "cstr":
				f("\tconst char *v = zz_mix(s) %% 6 ? zz_static(zz_mix(s)) : %s;", s.none())
			case "void":
				f("\tvoid *v = zz_user(zz_mix(s) %% 60);")
			case "handle":
				f("\tvt_hd *v = (vt_hd *)zz_user(zz_mix(s) %% 60);")
			case "uval":
				f("\t%s v; zz_rnd(&v, sizeof v, s);", fn.ret.un.c)
			case "uref":
				f("\t%s *v = 0; if (zz_mix(s) %% 5) { v = zz_own(sizeof *v); zz_rnd(v, sizeof *v, s); }", fn.ret.un.c)
			case "vecret":
				f("\t%s *v = 0; if (zz_mix(s) %% 5) { v = zz_own(sizeof *v * %d); %s }", fn.ret.sc.c, fn.ret.n, s.cMut(fn.ret, "v", "", nil))
			case "ptr":
				f("\t%s *v = 0;\n\tif (zz_mix(s) %% 6) { v = zz_own(sizeof *v); fill_%s(v, s); }", fn.ret.st.c, fn.ret.st.c)
			case "value":
				f("\t%s v;\n\tmemset(&v, 0, sizeof v);\n\tfill_%s(&v, s);", fn.ret.st.c, fn.ret.st.c)
			case "enum":
				f("\t%s v;\n\t%s", fn.ret.en.c, s.cMut(fn.ret, "v", "", nil))
			case "scalar":
				f("\t%s v = %s;", fn.ret.sc.c, s.cRand(fn.ret.sc))
			}
			f("\t%s\n\tzz_done(ticket, ZZ_RET, b);\n\treturn v;", s.cDump(fn.ret, "v", ""))
		}
		f("}")
	}
	return b.String()
}

// cCall calls a callback with arguments made from the seed.
func (s *bShape) cCall(cb *bCallback, fn string, slow bool) string {
	var b strings.Builder
	f := func(format string, a ...any) { fmt.Fprintf(&b, "\t\t"+format+"\n", a...) }
	args := "ticket"
	for _, p := range cb.params {
		args += ", " + p.c + "_"
		switch p.kind {
		case "scalar":
			f("%s %s_ = %s;", p.sc.c, p.c, s.cRand(p.sc))
		case "enum":
			f("%s %s_; %s", p.en.c, p.c, s.cMut(p, p.c+"_", "", nil))
		case "string":
			f("const char *%s_ = zz_mix(s) %% 6 ? zz_static(zz_mix(s)) : \"\";", p.c)
		case "void":
			f("void *%s_ = zz_user(zz_mix(s) %% 60);", p.c)
		case "ptr":
			f("%s *%s_ = 0; if (zz_mix(s) %% 6) { %s_ = zz_own(sizeof *%s_); fill_%s(%s_, s); }", p.st.c, p.c, p.c, p.c, p.st.c, p.c)
		case "value":
			f("%s %s_; memset(&%s_, 0, sizeof %s_); fill_%s(&%s_, s);", p.st.c, p.c, p.c, p.c, p.st.c, p.c)
		case "handle":
			f("vt_hd *%s_ = (vt_hd *)zz_user(zz_mix(s) %% 60);", p.c)
		case "uref":
			f("%s *%s_ = 0; if (zz_mix(s) %% 6) { %s_ = zz_own(sizeof *%s_); zz_rnd(%s_, sizeof *%s_, s); }", p.un.c, p.c, p.c, p.c, p.c, p.c)
		case "fixed":
			f("%s *%s_ = 0; if (zz_mix(s) %% 6) { %s_ = zz_own(sizeof *%s_ * %d); %s }", p.sc.c, p.c, p.c, p.c, p.n, s.cMut(p, p.c+"_", "", nil))
		}
		f("%s", strings.ReplaceAll(s.cDump(p, p.c+"_", ""), "(b, ", "(&e, "))
	}
	if cb.ret == nil {
		f("%s(%s);", fn, args)
		return b.String()
	}
	f("%s v = %s(%s);", strings.TrimSpace(retC(cb.ret)), fn, args)
	if slow {
		f("zzCollect();")
	}
	f("%s", strings.ReplaceAll(s.cDump(cb.ret, "v", ""), "(b, ", "(&r, "))
	return b.String()
}

func (s *bShape) vtHeader() string {
	var b strings.Builder
	b.WriteString("#ifndef ZZ_VT_H\n#define ZZ_VT_H\n#include <stdint.h>\n")
	for _, x := range append(append([]*bStruct{}, s.structs...), s.raws...) {
		fmt.Fprintf(&b, "char *zz_look_%s(void *p);\nvoid zz_fill_%s(void *p, uint64_t seed);\n", x.c, x.c)
	}
	b.WriteString("#endif\n")
	return b.String()
}

// Go source

func goPut(sc bScalar, e string) string {
	switch sc.k {
	case 'f':
		return fmt.Sprintf("b.f(\"%%d,\", int64(%s*8))", e)
	case 'b':
		return fmt.Sprintf("b.f(\"%%d,\", b01(%s))", e)
	}
	return fmt.Sprintf("b.f(\"%%d,\", %s)", e)
}

func goRand(sc bScalar) string {
	switch sc.k {
	case 'f':
		return sc.g + "(h.f())"
	case 'b':
		return "h.p(50)"
	case 'e':
		return sc.g + "(h.n(1000))"
	}
	return sc.g + "(h.i())"
}

func goEnum(e *bEnum) string {
	var vs []string
	for _, v := range e.vals {
		vs = append(vs, fmt.Sprint(v))
	}
	return fmt.Sprintf("[]%s{%s}[h.n(%d)]", e.g, strings.Join(vs, ","), len(vs))
}

func (s *bShape) goType(f *bField) string {
	switch f.kind {
	case "scalar":
		return f.sc.g
	case "enum":
		return f.en.g
	case "array":
		return fmt.Sprintf("[%d]%s", f.n, f.sc.g)
	case "array2":
		return fmt.Sprintf("[%d][%d]%s", f.n, f.m, f.sc.g)
	case "nestedarr2":
		return fmt.Sprintf("[%d][%d]%s", f.n, f.m, f.st.g)
	case "strarr2":
		return fmt.Sprintf("[%d][%d]string", f.n, f.m)
	case "strs2":
		return "[][]string"
	case "lists2":
		return "[][]" + f.st.g
	case "vec", "fixed", "vecret":
		return "[]" + f.sc.g
	case "ref":
		return "*" + f.sc.g
	case "nested", "value":
		return f.st.g
	case "nestedarr":
		return fmt.Sprintf("[%d]%s", f.n, f.st.g)
	case "ptr", "rawptr":
		return "*" + f.st.g
	case "list", "rawlist":
		return "[]" + f.st.g
	case "string":
		return "string"
	case "strs":
		return "[]string"
	case "strarr":
		return "[]string" // as a parameter
	case "rows":
		return "[][]" + f.sc.g
	case "void":
		return "unsafe.Pointer"
	case "handle":
		return "*Hd"
	case "union", "uval":
		return f.un.g
	case "uref":
		return "*" + f.un.g
	case "cstr":
		if s.gostr {
			return "string"
		}
		return "*byte"
	case "callback":
		return f.cb.g
	}
	panic(f.kind)
}

// goMk gives e a value; field tells struct fields from parameters.
func (s *bShape) goMk(f *bField, e string, field bool) string {
	switch f.kind {
	case "scalar":
		return fmt.Sprintf("%s = %s", e, goRand(f.sc))
	case "enum":
		return fmt.Sprintf("%s = %s", e, goEnum(f.en))
	case "array":
		return fmt.Sprintf("for i := range %s { %s[i] = %s }", e, e, goRand(f.sc))
	case "array2":
		return fmt.Sprintf("for i := range %s { for j := range %s[i] { %s[i][j] = %s } }", e, e, e, goRand(f.sc))
	case "nestedarr2":
		return fmt.Sprintf("for i := range %s { for j := range %s[i] { %s[i][j] = *mk%s(h) } }", e, e, e, f.st.g)
	case "strarr2":
		return fmt.Sprintf("for i := range %s { for j := range %s[i] { %s[i][j] = h.strz() } }", e, e, e)
	case "strs2":
		return fmt.Sprintf("if h.p(92) { %s = make([][]string, h.len()%%5); for i := range %s { %s[i] = make([]string, 2); for j := range %s[i] { %s[i][j] = h.strz() } } }", e, e, e, e, e)
	case "lists2":
		return fmt.Sprintf("if h.p(92) { %s = make([][]%s, h.len()%%4); for i := range %s { %s[i] = make([]%s, 2); for j := range %s[i] { %s[i][j] = *mk%s(h) } } }", e, f.st.g, e, e, f.st.g, e, e, f.st.g)
	case "fixed":
		return fmt.Sprintf("%s = make([]%s, %d); for i := range %s { %s[i] = %s }", e, f.sc.g, f.n, e, e, goRand(f.sc))
	case "vec":
		return fmt.Sprintf("if h.p(92) { %s = make([]%s, h.len()); for i := range %s { %s[i] = %s } }", e, f.sc.g, e, e, goRand(f.sc))
	case "rows":
		return fmt.Sprintf("if h.p(92) { %s = make([][]%s, h.few(7)); for i := range %s { if h.p(90) { %s[i] = make([]%s, 3); for j := range %s[i] { %s[i][j] = %s } } } }", e, f.sc.g, e, e, f.sc.g, e, e, goRand(f.sc))
	case "strs":
		if field && !s.gostr {
			return fmt.Sprintf("if h.p(92) { %s = make([][]byte, h.len()%%7); for i := range %s { if h.p(90) { %s[i] = h.cbytes() } } }", e, e, e)
		}
		return fmt.Sprintf("if h.p(92) { %s = make([]string, h.few(9)); for i := range %s { %s[i] = h.strz() } }", e, e, e)
	case "ref":
		return fmt.Sprintf("if h.p(92) { %s = new(%s); *%s = %s }", e, f.sc.g, e, goRand(f.sc))
	case "nested":
		return fmt.Sprintf("%s = *mk%s(h)", e, f.st.g)
	case "value":
		return fmt.Sprintf("%s = *mk%s(h)", e, f.st.g)
	case "nestedarr":
		return fmt.Sprintf("for i := range %s { %s[i] = *mk%s(h) }", e, e, f.st.g)
	case "ptr":
		return fmt.Sprintf("if h.p(85) { %s = mk%s(h) }", e, f.st.g)
	case "list":
		return fmt.Sprintf("if h.p(92) { %s = make([]%s, h.few(6)); for i := range %s { %s[i] = *mk%s(h) } }", e, f.st.g, e, e, f.st.g)
	case "rawptr":
		return fmt.Sprintf("%s = new(%s); C.zz_fill_%s(unsafe.Pointer(%s), C.uint64_t(h.u()))", e, f.st.g, f.st.c, e)
	case "rawlist":
		return fmt.Sprintf("%s = make([]%s, h.len()); for i := range %s { C.zz_fill_%s(unsafe.Pointer(&%s[i]), C.uint64_t(h.u())) }", e, f.st.g, e, f.st.c, e)
	case "string":
		if field && !s.gostr {
			return fmt.Sprintf("if h.p(92) { %s = h.cbytes() }", e)
		}
		return fmt.Sprintf("%s = h.strz()", e)
	case "strarr":
		mk := ""
		if !field {
			mk = fmt.Sprintf("%s = make([]string, %d); ", e, f.n)
		}
		return mk + fmt.Sprintf("for i := range %s { %s[i] = h.strz() }", e, e)
	case "void":
		return fmt.Sprintf("%s = user(h.n(60))", e)
	case "handle":
		return fmt.Sprintf("%s = (*Hd)(user(h.n(60)))", e)
	case "union", "uval":
		return fmt.Sprintf("for i := range %s { %s[i] = byte(h.u()) }", e, e)
	case "uref":
		if field {
			return fmt.Sprintf("if h.p(85) { %s = new(%s); for i := range %s { %s[i] = byte(h.u()) } }", e, f.un.g, e, e)
		}
		return fmt.Sprintf("%s = new(%s); for i := range %s { %s[i] = byte(h.u()) }", e, f.un.g, e, e)
	case "callback":
		return fmt.Sprintf("if h.p(80) { %s = go%s }", e, f.cb.g)
	}
	panic(f.kind)
}

func (s *bShape) goDump(f *bField, e string, field bool) string {
	list := func(body string) string {
		return fmt.Sprintf("b.f(\"[\"); if %s == nil { b.f(\"nil\") }; for i := range %s { %s }; b.f(\"]\")", e, e, body)
	}
	switch f.kind {
	case "scalar":
		return goPut(f.sc, e)
	case "enum":
		return fmt.Sprintf("b.f(\"%%d,\", int64(%s))", e)
	case "array", "fixed":
		return fmt.Sprintf("for i := range %s { %s }", e, goPut(f.sc, e+"[i]"))
	case "array2":
		return fmt.Sprintf("for i := range %s { for j := range %s[i] { %s } }", e, e, goPut(f.sc, e+"[i][j]"))
	case "nestedarr2":
		return fmt.Sprintf("for i := range %s { for j := range %s[i] { d%s(b, &%s[i][j]) } }", e, e, f.st.g, e)
	case "strarr2":
		return fmt.Sprintf("for i := range %s { for j := range %s[i] { dChars(b, %s[i][j]) } }", e, e, e)
	case "strs2":
		return list(fmt.Sprintf("b.f(\"(\"); if %s[i] == nil { b.f(\"nil\") } else { for j := range %s[i] { dChars(b, %s[i][j]) } }; b.f(\")\")", e, e, e))
	case "lists2":
		return list(fmt.Sprintf("b.f(\"(\"); if %s[i] == nil { b.f(\"nil\") } else { for j := range %s[i] { d%s(b, &%s[i][j]) } }; b.f(\")\")", e, e, f.st.g, e))
	case "vec", "vecret":
		return list(goPut(f.sc, e+"[i]"))
	case "rows":
		return list(fmt.Sprintf("b.f(\"(\"); if %s[i] == nil { b.f(\"nil\") } else { for j := 0; j < 3; j++ { %s } }; b.f(\")\")", e, goPut(f.sc, e+"[i][:3][j]")))
	case "strs":
		if field && !s.gostr {
			return list(fmt.Sprintf("dBytesZ(b, %s[i])", e))
		}
		return list(fmt.Sprintf("dChars(b, %s[i])", e))
	case "ref":
		return fmt.Sprintf("if %s == nil { b.f(\"nil\") } else { %s }", e, goPut(f.sc, "*"+e))
	case "nested", "value":
		return fmt.Sprintf("d%s(b, &%s)", f.st.g, e)
	case "nestedarr":
		return fmt.Sprintf("for i := range %s { d%s(b, &%s[i]) }", e, f.st.g, e)
	case "ptr":
		return fmt.Sprintf("d%s(b, %s)", f.st.g, e)
	case "list":
		return list(fmt.Sprintf("d%s(b, &%s[i])", f.st.g, e))
	case "rawptr":
		return fmt.Sprintf("b.f(\"%%s\", gotext(C.zz_look_%s(unsafe.Pointer(%s))))", f.st.c, e)
	case "rawlist":
		return list(fmt.Sprintf("b.f(\"%%s\", gotext(C.zz_look_%s(unsafe.Pointer(&%s[i]))))", f.st.c, e))
	case "string":
		if field && !s.gostr {
			return fmt.Sprintf("dBytesZ(b, %s)", e)
		}
		return fmt.Sprintf("dChars(b, %s)", e)
	case "strarr":
		return fmt.Sprintf("for i := range %s { dChars(b, %s[i]) }", e, e)
	case "cstr":
		if s.gostr {
			return fmt.Sprintf("dChars(b, %s)", e)
		}
		return fmt.Sprintf("dCstr(b, %s)", e)
	case "void", "handle":
		return fmt.Sprintf("dUser(b, unsafe.Pointer(%s))", e)
	case "union", "uval":
		return fmt.Sprintf("dHex(b, %s[:])", e)
	case "uref":
		return fmt.Sprintf("if %s == nil { b.f(\"nil\") } else { dHex(b, %s[:]) }", e, e)
	case "callback":
		return fmt.Sprintf("b.f(\"cb%%d,\", b01(%s != nil))", e)
	}
	panic(f.kind)
}

// goSource is the harness part that depends on the shape.
func (s *bShape) goSource() string {
	var b strings.Builder
	f := func(format string, a ...any) { fmt.Fprintf(&b, format+"\n", a...) }
	f("package main\n\n/*\n#include \"vt.h\"\n#include \"zz_rt.h\"\n#include \"zz_vt.h\"\n*/\nimport \"C\"\nimport (\n\t\"strings\"\n\t\"unsafe\"\n)\n\nvar _ unsafe.Pointer\nvar _ = strings.Contains\n")
	for _, x := range s.structs {
		f("func mk%s(h *Hx) *%s {\n\tx := new(%s)", x.g, x.g, x.g)
		for _, fl := range x.fields {
			f("\t%s", s.goMk(fl, "x."+fl.g, true))
			if counted(fl) {
				f("\tx.N%s = uint32(len(x.%s))", fl.g, fl.g)
			}
		}
		f("\treturn x\n}")
		f("func d%s(b *B, x *%s) {\n\tif x == nil { b.f(\"nil\"); return }\n\tb.f(\"{\")", x.g, x.g)
		for _, fl := range x.fields {
			f("\t%s", s.goDump(fl, "x."+fl.g, true))
		}
		f("\tb.f(\"}\")\n}")
		f("func r%s(x *%s) {\n\tif x == nil || x.Ref() == nil { return }\n\tx.Deref()", x.g, x.g)
		again := false
		for _, fl := range x.fields {
			switch fl.kind {
			case "strs2", "lists2":
				t := s.goType(fl)
				f("\tif len(x.%s) == 0 && x.N%s > 0 { x.%s = make(%s, x.N%s); for i := range x.%s { x.%s[i] = make(%s, 2) }; x.Deref() }", fl.g, fl.g, fl.g, t, fl.g, fl.g, fl.g, t[2:])
				f("\tif x.%s == nil && unsafe.Pointer(x.Ref().%s) != nil { x.%s = %s{} }", fl.g, fl.c, fl.g, t)
			case "list", "strs", "rows":
				t := s.goType(fl)
				if fl.kind == "strs" && !s.gostr {
					t = "[][]byte"
				}
				f("\tif len(x.%s) == 0 && x.N%s > 0 { x.%s = make(%s, x.N%s); x.Deref() }", fl.g, fl.g, fl.g, t, fl.g)
				f("\tif x.%s == nil && unsafe.Pointer(x.Ref().%s) != nil { x.%s = %s{} }", fl.g, fl.c, fl.g, t)
				again = true
			}
		}
		_ = again
		for _, fl := range x.fields {
			e := "x." + fl.g
			switch fl.kind {
			case "string":
				if !s.gostr {
					f("\t%s = reslice(%s)", e, e)
				}
			case "strs":
				if s.gostr {
					break
				}
				f("\tfor i := range %s { %s[i] = reslice(%s[i]) }", e, e, e)
			case "vec":
				if s.lens {
					f("\tif len(%s) == 0 && cap(%s) > 0 { b := x.N%s; if b > 0 { viol(\"P13\", \"length: a slice read from C has no length, its length field says %%d\", b) } }", e, e, fl.g)
				}
				f("\tif len(%s) == 0 && %s != nil { %s = %s[:x.N%s] }", e, e, e, e, fl.g)
			case "nested":
				f("\tr%s(&%s)", fl.st.g, e)
			case "nestedarr", "list":
				f("\tfor i := range %s { r%s(&%s[i]) }", e, fl.st.g, e)
			case "nestedarr2", "lists2":
				f("\tfor i := range %s { for j := range %s[i] { r%s(&%s[i][j]) } }", e, e, fl.st.g, e)
			case "ptr":
				f("\tr%s(%s)", fl.st.g, e)
			}
		}
		f("}")
	}
	for _, x := range s.structs {
		// the structs that a struct points at
		f("func k%s(x *%s, see func(string)) {\n\tif x == nil { return }", x.g, x.g)
		for _, fl := range x.fields {
			e := "x." + fl.g
			switch fl.kind {
			case "nested":
				f("\tk%s(&%s, see)", fl.st.g, e)
			case "nestedarr", "list":
				f("\tfor i := range %s { k%s(&%s[i], see) }", e, fl.st.g, e)
			case "nestedarr2", "lists2":
				f("\tfor i := range %s { for j := range %s[i] { k%s(&%s[i][j], see) } }", e, e, fl.st.g, e)
			case "ptr":
				f("\tif %s != nil && %s.Ref() != nil { see(gotext(C.zz_look_%s(unsafe.Pointer(%s.Ref())))) }\n\tk%s(%s, see)", e, e, fl.st.c, e, fl.st.g, e)
			}
		}
		f("}")
	}
	for _, x := range s.structs {
		// the program drops its own references to the Go memory that the C form of a struct uses
		f("func f%s(x *%s, rows bool) {", x.g, x.g)
		for _, fl := range x.fields {
			e := "x." + fl.g
			switch fl.kind {
			case "ref", "uref":
				f("\t%s = nil", e)
			case "rows", "strs", "lists2", "strs2": // Deref reads as many as the program has
				f("\tif rows { %s = nil }", e)
			case "nested":
				f("\tf%s(&%s, rows)", fl.st.g, e)
			case "nestedarr":
				f("\tfor i := range %s { f%s(&%s[i], rows) }", e, fl.st.g, e)
			case "nestedarr2":
				f("\tfor i := range %s { for j := range %s[i] { f%s(&%s[i][j], rows) } }", e, e, fl.st.g, e)
			}
		}
		f("}")
	}
	for _, cb := range s.cbs {
		ps := []string{"ticket int32"}
		for _, p := range cb.params {
			ps = append(ps, p.g+" "+s.goType(p))
		}
		ret := ""
		if cb.ret != nil {
			ret = " " + s.goType(cb.ret)
		}
		f("func go%s(%s)%s {\n\tb := new(B)", cb.g, strings.Join(ps, ", "), ret)
		for _, p := range cb.params {
			switch p.kind {
			case "ptr":
				f("\tr%s(%s)", p.st.g, p.g)
			case "value":
				f("\tr%s(&%s)", p.st.g, p.g)
			case "fixed":
				f("\tif %s == nil { b.f(\"nil\") } else { %s = %s[:%d] }", p.g, p.g, p.g, p.n)
			}
			f("\t%s", s.goDump(p, p.g, false))
		}
		f("\th := cbEnter(ticket, b.String())\n\tb = new(B)\n\t_ = h")
		if cb.ret != nil {
			switch cb.ret.kind {
			case "cstr":
				if s.gostr {
					f("\tv := h.strz()")
				} else {
					f("\tv := cstatic(h.u())")
				}
			default:
				f("\tvar v %s\n\t%s", s.goType(cb.ret), s.goMk(cb.ret, "v", false))
			}
			f("\t%s", s.goDump(cb.ret, "v", false))
			if cb.ret.kind == "ptr" {
				f("\tif v != nil { h.frees = append(h.frees, func() { v.Free() }) }")
			}
		}
		f("\tcbLeave(ticket, b.String())")
		if cb.ret != nil {
			f("\treturn v")
		}
		f("}")
	}
	var ops []string
	for _, fn := range s.funcs {
		if fn.kind == "probe" {
			continue
		}
		ops = append(ops, fmt.Sprintf("{%q, %q, op%s}", fn.c, fn.kind, fn.g))
		s.goOp(f, fn, false)
		inner := false
		for _, p := range fn.params {
			inner = inner || p.kind == "ptr" && p.st.inner
		}
		if inner && fn.kind == "call" {
			ops = append(ops, fmt.Sprintf("{%q, \"drop\", drop%s}", fn.c+"(dropped)", fn.g))
			s.goOp(f, fn, true)
		}
	}
	for i, x := range s.structs {
		g := fmt.Sprintf("Use%d", i)
		f("func hold%s(h *Hx) {\n\ttk := h.begin(\"vt_use%d\")\n\tx := mk%s(h)\n\tb := new(B)\n\td%s(b, x)", x.g, i, x.g, x.g)
		f("\th.kids = func(see func(string)) { k%s(x, see) }", x.g)
		f("\th.guard(tk, func() { %s(tk, x) })\n\th.called(tk, b.String())\n\tif h.p(50) { f%s(x, false) }\n\th.hold(&heldT{name: %q, want: text(tk, 2)}, unsafe.Pointer(x.Ref()),", g, x.g, x.c)
		f("\t\tfunc(p unsafe.Pointer) string { return gotext(C.zz_look_%s(p)) },", x.c)
		f("\t\tfunc() string { r%s(x); b := new(B); d%s(b, x); return b.String() },", x.g, x.g)
		f("\t\tfunc() { x.Free() }, func() func() { y := *x; return func() { y.Free() } },")
		f("\t\tfunc() (unsafe.Pointer, bool) { return unsafe.Pointer(x.Ref()), %v },", x.reuse)
		f("\t\tfunc() unsafe.Pointer { tk := h.begin(\"vt_use%d\"); h.guard(tk, func() { %s(tk, x) }); h.end(tk); return unsafe.Pointer(x.Ref()) })\n\th.end(tk)\n}", i, g)
		ops = append(ops, fmt.Sprintf("{%q, \"hold\", hold%s}", "hold "+x.c, x.g))
		if x.inner {
			// passed a second time, by the last reference to it
			f("func last%s(h *Hx) {\n\ttk := h.begin(\"vt_use%d\")\n\tx := mk%s(h)\n\tb := new(B)\n\td%s(b, x)", x.g, i, x.g, x.g)
			f("\th.guard(tk, func() { %s(tk, x) })\n\th.called(tk, b.String())\n\twant := text(tk, 2)\n\th.end(tk)\n\tif failing { return }\n\tif h.p(50) { f%s(x, true) }\n\ttk = h.begin(\"vt_use%d\")\n\th.dropped(tk, func() { %s(tk, x) })\n\th.called(tk, want)\n\th.end(tk)\n}", g, x.g, i, g)
			ops = append(ops, fmt.Sprintf("{%q, \"drop\", last%s}", "last "+x.c, x.g))
		}
	}
	for i, x := range s.structs {
		for _, fl := range x.fields {
			if fl.kind != "ptr" {
				continue
			}
			k := slices.Index(s.structs, fl.st)
			// a struct with a reference of its own outlives those that point at it
			f("func shared%s%s(h *Hx) {\n\tif failing { return }\n\tc := mk%s(h)\n\ttk := h.begin(\"vt_use%d\")\n\th.guard(tk, func() { Use%d(tk, c) })\n\th.end(tk)", x.g, fl.g, fl.st.g, k, k)
			f("\tlook := func(p unsafe.Pointer) string { return gotext(C.zz_look_%s(p)) }\n\tref := unsafe.Pointer(c.Ref())\n\tvar xs []*%s", fl.st.c, x.g)
			f("\tfor i, n := 0, 1+h.n(2); i < n; i++ {\n\t\tx := mk%s(h)\n\t\tx.%s = c\n\t\ttk := h.begin(\"vt_use%d\")\n\t\th.guard(tk, func() { Use%d(tk, x) })\n\t\th.end(tk)\n\t\txs = append(xs, x)\n\t}", x.g, fl.g, i, i)
			f("\twant := look(ref)\n\tfor _, x := range xs {\n\t\tpoint(h, 7)\n\t\tx.Free()\n\t\tif got := look(ref); got != want || unsafe.Pointer(c.Ref()) != ref { viol(\"P12\", \"shared: Free of a struct changes the C memory of one it points at, which had its own before: %%s was %%s\", near(got, want), near(want, got)) }\n\t}")
			f("\tpoint(h, 7)\n\tc.Free()\n\tif got := look(ref); !strings.Contains(got, \"<FREED>\") { viol(\"P12\", \"not-freed: memory of a shared %s is still allocated after Free\") }\n\tflushC()\n}", fl.st.c)
			ops = append(ops, fmt.Sprintf("{%q, \"hold\", shared%s%s}", "shared "+fl.st.c, x.g, fl.g))
		}
	}
	for _, x := range s.raws {
		f("func raw%s(h *Hx) { raw(h, %q, func() (unsafe.Pointer, func(), func() string) { x := New%s(); return unsafe.Pointer(x.Ref()), func() { x.Free() }, func() string {", x.g, x.c, x.g)
		if s.access {
			f("\tb := new(B)\n\tb.f(\"{\")")
			for _, fl := range x.fields {
				g := strings.ToUpper(fl.c)
				if fl.kind == "scalar" {
					f("\tif p := x.Get%s(); p == nil { b.f(\"nil\") } else { %s }", g, goPut(fl.sc, "*p"))
				} else {
					f("\t{ a := x.Get%s(); for i := range a { %s } }", g, goPut(fl.sc, "a[i]"))
				}
			}
			f("\tb.f(\"}\")\n\treturn b.String()\n} },")
		} else {
			f("return \"\" } },")
		}
		f("\tfunc(p unsafe.Pointer, v uint64) { C.zz_fill_%s(p, C.uint64_t(v)) }, func(p unsafe.Pointer) string { return gotext(C.zz_look_%s(p)) }) }", x.c, x.c)
		ops = append(ops, fmt.Sprintf("{%q, \"hold\", raw%s}", "new "+x.c, x.g))
	}
	ops = append(ops, s.goProbes(f)...)
	f("var ops []opT\n\nfunc init() {\n\tops = []opT{\n\t%s,\n}\n}", strings.Join(ops, ",\n\t"))
	return b.String()
}

func (s *bShape) goOp(f func(string, ...any), fn *bFunc, drop bool) {
	name := "op" + fn.g
	if drop {
		name = "drop" + fn.g
	}
	f("func %s(h *Hx) {\n\ttk := h.begin(%q)", name, fn.c)
	args := []string{"tk"}
	for _, p := range fn.params {
		if p.kind == "callback" {
			f("\tvar %s %s\n\tif h.p(90) { %s = go%s }", p.g, p.cb.g, p.g, p.cb.g)
			args = append(args, p.g)
			continue
		}
		f("\tvar %s %s\n\t%s", p.g, s.goType(p), s.goMk(p, p.g, false))
		args = append(args, p.g)
		if counted(p) {
			args = append(args, "uint32(len("+p.g+"))")
		}
	}
	f("\tb := new(B)\n\t_ = b")
	for _, p := range fn.params {
		if p.kind != "callback" {
			f("\t%s", s.goDump(p, p.g, false))
		}
	}
	ret := ""
	if fn.ret != nil {
		f("\tvar v %s", s.goType(fn.ret))
		ret = "v = "
	}
	if drop {
		// the only references to the arguments are those of the call
		f("\twant := b.String()\n\th.dropped(tk, func() { %s%s(%s) })\n\th.called(tk, want)\n\th.end(tk)", ret, fn.g, strings.Join(args, ", "))
		if fn.ret != nil {
			f("\t_ = v")
		}
		f("}")
		return
	}
	var kids []string
	for _, p := range fn.params {
		switch p.kind {
		case "ptr":
			kids = append(kids, fmt.Sprintf("k%s(%s, see)", p.st.g, p.g))
		case "value":
			kids = append(kids, fmt.Sprintf("k%s(&%s, see)", p.st.g, p.g))
		case "lists2":
			kids = append(kids, fmt.Sprintf("for i := range %s { for j := range %s[i] { k%s(&%s[i][j], see) } }", p.g, p.g, p.st.g, p.g))
		case "list":
			kids = append(kids, fmt.Sprintf("for i := range %s { k%s(&%s[i], see) }", p.g, p.st.g, p.g))
		}
	}
	if len(kids) > 0 {
		f("\th.kids = func(see func(string)) { %s }", strings.Join(kids, "; "))
	}
	f("\th.guard(tk, func() { %s%s(%s) })", ret, fn.g, strings.Join(args, ", "))
	if fn.kind == "cb" {
		f("\tfor _, f := range h.frees { f() }\n\th.frees = nil")
		f("\th.cbCheck(tk)\n\tif v != tk { viol(\"P14\", \"result: %%s returned %%d for %%d\", fnOf[tk], v, tk) }")
		for _, p := range fn.params {
			if p.kind == "ptr" {
				f("\tif %s != nil { %s.Free() }", p.g, p.g)
			}
		}
		f("\th.end(tk)\n}")
		return
	}
	f("\th.called(tk, b.String())\n\tb = new(B)")
	for _, p := range fn.params {
		switch p.kind {
		case "ptr":
			f("\tr%s(%s)", p.st.g, p.g)
		case "list":
			f("\tfor i := range %s { r%s(&%s[i]) }", p.g, p.st.g, p.g)
		case "lists2":
			f("\tfor i := range %s { for j := range %s[i] { r%s(&%s[i][j]) } }", p.g, p.g, p.st.g, p.g)
		}
		f("\t%s", s.goDump(p, p.g, false))
	}
	f("\th.after(tk, b.String())")
	if fn.ret != nil {
		f("\tb = new(B)")
		switch fn.ret.kind {
		case "ptr":
			f("\tr%s(v)", fn.ret.st.g)
		case "value":
			f("\tr%s(&v)", fn.ret.st.g)
		case "vecret":
			f("\tif v != nil { v = v[:%d] }", fn.ret.n)
		}
		f("\t%s\n\th.ret(tk, b.String())", s.goDump(fn.ret, "v", false))
		switch fn.ret.kind {
		case "cstr", "ptr", "value":
			if fn.ret.st == nil || fn.ret.st.flat || true {
				f("\tif h.p(40) { h.keep(%q, func() string { b := new(B); %s; return b.String() }) }", "result of "+fn.c, s.goDump(fn.ret, "v", false))
			}
		}
	}
	for _, p := range fn.params {
		switch p.kind {
		case "strs", "rows", "vec", "list", "strs2", "lists2", "strarr":
			f("\tif h.p(40) { h.keep(%q, func() string { b := new(B); %s; return b.String() }) }", p.c+" of "+fn.c, s.goDump(p, p.g, false))
		case "ptr":
			f("\tif %s != nil { %s.Free() }", p.g, p.g)
		}
	}
	f("\th.end(tk)\n}")
}

// owns reports whether C memory hangs off the struct itself.
func (x *bStruct) owns() bool {
	for _, f := range x.fields {
		if f.kind == "string" || f.kind == "vec" {
			return true
		}
	}
	return false
}

// goProbes are the histories of the known findings.
func (s *bShape) goProbes(f func(string, ...any)) (ops []string) {
	cb := s.cbs[0]
	ps := []string{"ticket int32"}
	for _, p := range cb.params {
		ps = append(ps, p.g+" "+s.goType(p))
	}
	ret, zero := "", ""
	if cb.ret != nil {
		ret = " (v " + s.goType(cb.ret) + ")"
		zero = "; return"
	}
	f("var second int\nfunc probeFirst(h *Hx) {\n\ttk := h.begin(\"vt_run0\")\n\tRun0(tk, go%s, 1, \"x\")\n\th.end(tk)\n\ttk = h.begin(\"vt_run0\")", cb.g)
	f("\tRun0(tk, func(%s)%s { second++%s }, 5, \"x\")", strings.Join(ps, ", "), ret, zero)
	f("\tif second == 0 { viol(\"P14\", \"second-function: the second Go function of a callback type is not called, the first one is\") }")
	f("\th.end(tk)\n\tn := second\n\ttk = h.begin(\"vt_run0\")\n\tRun0(tk, nil, 16, \"x\")\n\tif second != n { viol(\"P14\", \"replaced: C calls the function it was given first, the one passed later runs\") }\n}")
	ops = append(ops, `{"second callback", "probe", probeFirst}`)
	for _, fn := range s.funcs {
		if fn.kind != "probe" {
			continue
		}
		if fn.cbOf != nil {
			f("func probeResult(h *Hx) {\n\ttk := h.begin(%q)\n\t%s(tk, go%s)", fn.c, fn.g, fn.cbOf.g)
			f("\tif got := text(tk, 3); strings.Contains(got, \"<FREED>\") { viol(\"P14\", \"callback-result: the string a Go callback returned is freed while C uses it\") }\n}")
			ops = append(ops, `{"callback result", "probe", probeResult}`)
			continue
		}
		x := fn.params[0].st
		f("func probe%s(h *Hx) {\n\ttk := h.begin(%q)\n\tp0 := make([]%s, 4)\n\tfor i := range p0 { p0[i] = *mk%s(h) }", fn.g, fn.c, x.g, x.g)
		f("\t%s(tk, p0, 4)\n\twant := text(tk, 2)\n\tgc(); yield(40); gc(); yield(40)", fn.g)
		f("\tb := new(B)\n\tfor i := range p0 { b.f(\"%%s\", gotext(C.zz_look_%s(unsafe.Pointer(p0[i].Ref())))) }", x.c)
		f("\tif got := b.String(); strings.Contains(got, \"<FREED>\") { viol(\"P12\", \"slice-elements: what the elements of a passed slice of structs refer to is freed while the slice is in use: %%s was %%s\", near(got, want), near(want, got)) }\n}")
		ops = append(ops, fmt.Sprintf("{%q, \"probe\", probe%s}", fn.c, fn.g))
	}
	f("func probeValue(h *Hx) {\n\tn := C.zz_live()\n\ttk := h.begin(\"vt_val0\")\n\tVal0(tk, *mk%s(h))\n\tfor i := 0; i < 5; i++ { gc(); yield(40) }", s.structs[0].g)
	f("\tif C.zz_live() > n { viol(\"P12\", \"value-leak: the C copy of a struct passed by value is never released\") }\n}")
	ops = append(ops, `{"by value", "probe", probeValue}`)
	for i, x := range s.structs {
		if x.cbs || !x.reuse || !x.owns() {
			continue
		}
		f("func probeStale(h *Hx) {\n\ttk := h.begin(\"vt_use%d\")\n\tx := mk%s(h)\n\tb := new(B)\n\td%s(b, x)\n\twant := b.String()\n\tUse%d(tk, x)\n\tr%s(x)\n\tx.Free()\n\ttk2 := h.begin(\"vt_use%d\")\n\tUse%d(tk2, x)", i, x.g, x.g, i, x.g, i, i)
		f("\t_, _ = want, tk\n\tif got, want := text(tk2, 0), text(tk, 2); got != want { viol(\"P12\", \"stale-field: fields read with Deref refer to memory that Free released, the struct passed again arrives as %%s, was %%s\", near(got, want), near(want, got)) }\n}")
		ops = append(ops, `{"stale field", "probe", probeStale}`)
		break
	}
	for i, x := range s.structs {
		for _, fl := range x.fields {
			if fl.kind != "ptr" {
				continue
			}
			f("func probeChild(h *Hx) {\n\ttk := h.begin(\"vt_use%d\")\n\tx, c := mk%s(h), mk%s(h)\n\tx.%s = c\n\tUse%d(tk, x)\n\tx.Free()", i, x.g, fl.st.g, fl.g, i)
			f("\tif p := unsafe.Pointer(c.Ref()); p != nil && strings.Contains(gotext(C.zz_look_%s(p)), \"<FREED>\") { viol(\"P12\", \"child-reference: a struct keeps its reference to C memory that the Free of its parent released\") }\n}", fl.st.c)
			ops = append(ops, `{"child reference", "probe", probeChild}`)
			return ops
		}
	}
	return ops
}
