From 6ebf18f18ffa126769b4e40d24e60a8e7b892f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 01/17] fix: predefine user macros in a stable order

Ranging over the Defines map gave every macro a random position, which is
printed in the generated constants, so that outputs differed between runs.
---
 parser/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0c6748d..5d6bbdc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"os/exec"
 	"path/filepath"
 	"runtime"
+	"sort"
 	"strings"
 
 	"modernc.org/cc/v4"
@@ -37,8 +38,13 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 
 	var predefined string
 	// user-provided defines take precedence
-	for name, value := range cfg.Defines {
-		switch v := value.(type) {
+	names := make([]string, 0, len(cfg.Defines))
+	for name := range cfg.Defines {
+		names = append(names, name)
+	}
+	sort.Strings(names) // a map has no stable order, positions of the defines do
+	for _, name := range names {
+		switch v := cfg.Defines[name].(type) {
 		case string:
 			predefined += fmt.Sprintf("\n#define %s \"%s\"", name, v)
 		case int, int16, int32, int64, uint, uint16, uint32, uint64:
-- 
2.43.0


From 8839763cf3a06df8e95caf6f0b26005b9532edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 02/17] fix: compile pointer and type tips in a stable scope
 order

Struct tips are also appended to the type scope; ranging over the scope map
made it random whether they come before or after the type tips.
---
 translator/translator.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d916d46..d73a8db 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -222,8 +222,14 @@ func getRuleActionRxs(rules Rules, action RuleAction) (RxMap, error) {
 
 func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 	rxMap := make(PtrTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	scopes := make([]TipScope, 0, len(tips))
+	for scope := range tips {
+		scopes = append(scopes, scope)
+	}
+	// struct tips are appended to the type scope, keep their order stable
+	sort.Slice(scopes, func(i, j int) bool { return scopes[i] > scopes[j] })
+	for _, scope := range scopes {
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
@@ -249,8 +255,14 @@ func getPtrTipRxs(tips PtrTips) (PtrTipRxMap, error) {
 
 func getTypeTipRxs(tips TypeTips) (TypeTipRxMap, error) {
 	rxMap := make(TypeTipRxMap, len(tips))
-	for scope, specs := range tips {
-		for _, spec := range specs {
+	scopes := make([]TipScope, 0, len(tips))
+	for scope := range tips {
+		scopes = append(scopes, scope)
+	}
+	// struct tips are appended to the type scope, keep their order stable
+	sort.Slice(scopes, func(i, j int) bool { return scopes[i] > scopes[j] })
+	for _, scope := range scopes {
+		for _, spec := range tips[scope] {
 			if len(spec.Target) == 0 {
 				continue
 			}
-- 
2.43.0


From 55e7eb51f44323670054d890119070074d106bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:25 +0000
Subject: [PATCH 03/17] fix: do not print a code address for macros that cannot
 be resolved

The fallback converted the method value macro.Value instead of calling it, so
the constant got the address of a function: a different one in every build
(or process, with PIE). There is no value in this case, skip the macro.
---
 translator/translator.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/translator/translator.go b/translator/translator.go
index d73a8db..d5cfc8d 100644
--- a/translator/translator.go
+++ b/translator/translator.go
@@ -491,15 +491,7 @@ func (t *Translator) collectDefines(declares []*CDecl, defines map[string]*cc.Ma
 			typecastValue = false
 		}
 		if !valid {
-			if macro.Type().Kind() == cc.InvalidKind {
-				// fallback to the evaluated value
-				t.defines = append(t.defines, &CDecl{
-					IsDefine: true,
-					Name:     name,
-					Value:    Value(macro.Value),
-					Position: macro.Position(),
-				})
-			}
+			// an unresolved reference, the macro cannot be expanded
 			continue
 		}
 		t.defines = append(t.defines, &CDecl{
-- 
2.43.0


From 273b151c71a16e92a986238be116386545548805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 04/17] fix: report errors of closing and of writing
 unformatted Go files

---
 process.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/process.go b/process.go
index 219b611..26cc23f 100644
--- a/process.go
+++ b/process.go
@@ -199,7 +199,7 @@ func (c *Process) Flush(noCGO bool) error {
 					f.Close()
 					return err
 				}
-				f.Close()
+				return f.Close()
 			} else {
 				return err
 			}
@@ -261,8 +261,8 @@ func flushBufferToFile(buf []byte, f *os.File, fmt bool) error {
 			return err
 		} else {
 			log.Printf("[WARN] cannot gofmt %s: %s\n", f.Name(), err.Error())
-			f.Write(buf)
-			return nil
+			_, err = f.Write(buf)
+			return err
 		}
 	}
 	_, err := f.Write(buf)
-- 
2.43.0


From 525552332d7ef06185a90582860a681ac8260004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:44 +0000
Subject: [PATCH 05/17] fix: do not skip a specified source file that cannot be
 accessed

---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5d6bbdc..47292fa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -125,7 +125,9 @@ func checkConfig(cfg *Config) (*Config, error) {
 				path = hPath
 			}
 		}
-		if info, err := os.Stat(path); err != nil || info.IsDir() {
+		if info, err := os.Stat(path); err != nil {
+			return nil, fmt.Errorf("parser: cannot access the file specified: %v", err)
+		} else if info.IsDir() {
 			continue
 		}
 		if absPath, err := filepath.Abs(path); err != nil {
-- 
2.43.0


From 8b48c0966467332b6f7c16c110a779b79632cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 06/17] fix: report an unusable host C compiler instead of
 crashing

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 47292fa..affa2d8 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -90,7 +90,10 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	if cfg.CCDefs && ccDefsOK {
 		predefined += fmt.Sprintf("\n%s", ccDefs)
 	}
-	ccConfig, _ := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	ccConfig, err := cc.NewConfig(runtime.GOOS, cfg.Arch)
+	if err != nil {
+		return nil, err
+	}
 	// Let cc provide all predefines and builtins. Only append custom definitions.
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
-- 
2.43.0


From 25460ec5e6a62af9e86445c47f171be40d342d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:59 +0000
Subject: [PATCH 07/17] fix: fail when the imports of a generated file cannot
 be resolved

---
 process.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/process.go b/process.go
index 26cc23f..1bde964 100644
--- a/process.go
+++ b/process.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/scanner"
 	"io/ioutil"
 	"log"
 	"os"
@@ -259,6 +260,8 @@ func flushBufferToFile(buf []byte, f *os.File, fmt bool) error {
 		if fmtBuf, err := imports.Process(f.Name(), buf, nil); err == nil {
 			_, err = f.Write(fmtBuf)
 			return err
+		} else if _, ok := err.(scanner.ErrorList); !ok {
+			return err // the source is fine, its imports could not be resolved
 		} else {
 			log.Printf("[WARN] cannot gofmt %s: %s\n", f.Name(), err.Error())
 			_, err = f.Write(buf)
-- 
2.43.0


From ae04f6cd6525047c426e1dbc173075f4ab52e2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 08/17] fix: keep the strings of a string slice allocated while
 C uses them

---
 generator/gen_bindings.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index aa16b97..d32b21c 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -174,8 +174,10 @@ func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.
 	indices := genIndices("i", level)
 	if getHelper, ok := fromGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%d[i%d], _ = %s(%sx%s)\n",
-			uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs%d := new(cgoAllocMap)\n", uplevel)
+		fmt.Fprintf(buf, "v%d[i%d], allocs%d = %s(%sx%s)\n",
+			uplevel, uplevel, uplevel, helper.Name, ptrs(goSpec.Pointers), indices)
+		fmt.Fprintf(buf, "allocs.Borrow(allocs%d)\n", uplevel)
 		return helper
 	}
 	if goSpec.Pointers == 0 {
-- 
2.43.0


From 37ae032b7ba7d0f63ffcb22ff9158fc6c766184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 09/17] fix: copy the strings read back from C into string
 slices

---
 generator/gen_bindings.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index d32b21c..0933bf0 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -610,7 +610,8 @@ func (gen *Generator) packPlainSlice(buf io.Writer, base string, pointers uint8,
 func (gen *Generator) packObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
 	if getHelper, ok := toGoHelperMap[goSpec]; ok {
 		helper := getHelper(gen, cgoSpec)
-		fmt.Fprintf(buf, "v%s = %s(%sptr%d)\n",
+		// the C memory behind is temporary
+		fmt.Fprintf(buf, "v%s = RawString(%s(%sptr%d)).Copy()\n",
 			genIndices("i", level), helper.Name, ptrs(goSpec.Pointers), level)
 		return helper
 	}
-- 
2.43.0


From b02478c5ae5011bef8afea425312bb527038f06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 10/17] fix: pass a nil slice of a struct to C as NULL

---
 generator/gen_bindings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 0933bf0..ad4b6ec 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -379,6 +379,9 @@ func (gen *Generator) getCopyBytesHelper(cgoSpec tl.CGoSpec) *Helper {
 		Name:        name,
 		Description: fmt.Sprintf("%s copies the data from Go slice as %s.", name, cgoSpec),
 		Source: fmt.Sprintf(`func %s(slice *sliceHeader) (%s, *cgoAllocMap) {
+			if slice.Data == nil {
+				return nil, nil
+			}
 			allocs := new(cgoAllocMap)
 			defer runtime.SetFinalizer(allocs, func(a *cgoAllocMap) {
 				go a.Free()
-- 
2.43.0


From 28f1deb3e3bb105d0ebe7b97587c49581853efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 11/17] fix: keep Go memory inside struct arguments alive
 during the call

---
 generator/gen_bindings.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index ad4b6ec..ccab0a5 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -973,6 +973,10 @@ func (gen *Generator) createProxies(funcName string, funcSpec tl.CType) (from, t
 			gen.submitHelper(safeString)
 			fmt.Fprintf(fromBuf, "%s = safeString(%s)\n", refName, refName)
 		}
+		if !goSpec.IsPlain() && !goSpec.IsPlainKind() {
+			// its C form may refer to the memory of Go slices within
+			needKeepalive = true
+		}
 		fromProxy, nillable := gen.proxyArgFromGo(argTip, refName, goSpec, cgoSpec)
 		if nillable {
 			fmt.Fprintf(fromBuf, "var %s %s\n", name, cgoSpec)
-- 
2.43.0


From 73afba55220b9e14ee6d014cb45d7fb309da6beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 12/17] fix: keep Go slices alive while C memory of a struct
 refers to them

---
 generator/gen_bindings.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index ccab0a5..34f1079 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -167,6 +167,7 @@ func unpackPlainSlice(buf io.Writer, cgoSpec tl.CGoSpec, level uint8) {
 	fmt.Fprintf(buf, "h := (*sliceHeader)(unsafe.Pointer(&x%s))\n", genIndices("i", level))
 	fmt.Fprintf(buf, "v%d[i%d] = (%s)(h.Data)\n",
 		uplevel, uplevel, cgoSpec.AtLevel(level))
+	fmt.Fprintf(buf, "allocs.Keep(h.Data)\n")
 }
 
 func (gen *Generator) unpackObj(buf io.Writer, goSpec tl.GoTypeSpec, cgoSpec tl.CGoSpec, level uint8) *Helper {
@@ -1141,8 +1142,9 @@ var (
 		Name:        "cgoAllocMap",
 		Description: "cgoAllocMap stores pointers to C allocated memory for future reference.",
 		Source: `type cgoAllocMap struct {
-			mux sync.RWMutex
-			m   map[unsafe.Pointer]struct{}
+			mux  sync.RWMutex
+			m    map[unsafe.Pointer]struct{}
+			keep []unsafe.Pointer // Go memory that the allocated memory refers to
 		}
 
 		var cgoAllocsUnknown = new(cgoAllocMap)
@@ -1156,6 +1158,12 @@ var (
 			a.mux.Unlock()
 		}
 
+		func (a *cgoAllocMap) Keep(ptr unsafe.Pointer) {
+			a.mux.Lock()
+			a.keep = append(a.keep, ptr)
+			a.mux.Unlock()
+		}
+
 		func (a *cgoAllocMap) IsEmpty() bool {
 			a.mux.RLock()
 			isEmpty := len(a.m) == 0
@@ -1176,6 +1184,8 @@ var (
 				a.m[ptr] = struct{}{}
 				delete(b.m, ptr)
 			}
+			a.keep = append(a.keep, b.keep...)
+			b.keep = nil
 			a.mux.Unlock()
 			b.mux.Unlock()
 		}
@@ -1186,6 +1196,7 @@ var (
 				C.free(ptr)
 				delete(a.m, ptr)
 			}
+			a.keep = nil
 			a.mux.Unlock()
 		}`,
 	}
-- 
2.43.0


From a11255c1824bb8fc0dbadc6531c754973dfd2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 13/17] fix: keep Go values alive while C memory of a struct
 refers to them

---
 generator/gen_struct_helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/gen_struct_helpers.go b/generator/gen_struct_helpers.go
index 85dfa91..44ff65d 100644
--- a/generator/gen_struct_helpers.go
+++ b/generator/gen_struct_helpers.go
@@ -280,6 +280,11 @@ func (gen *Generator) getPassRefSource(goStructName []byte, cStructName string,
 		fmt.Fprintf(buf, "var c%s_allocs *cgoAllocMap\n", m.Name)
 		fmt.Fprintf(buf, "ref%2x.%s, c%s_allocs  = %s\n", crc, m.Name, m.Name, fromProxy)
 		fmt.Fprintf(buf, "allocs%2x.Borrow(c%s_allocs)\n", crc, m.Name)
+		isPlain := (memTip == tl.TipMemRaw) || goSpec.IsPlain() || goSpec.IsPlainKind()
+		if isPlain && goSpec.Pointers > 0 && goSpec.Slices == 0 && len(goSpec.OuterArr)+len(goSpec.InnerArr) == 0 {
+			// the C form refers to the memory of a Go value
+			fmt.Fprintf(buf, "allocs%2x.Keep(unsafe.Pointer(%s))\n", crc, goName)
+		}
 		if nillable {
 			fmt.Fprintf(buf, "}\n\n")
 		} else {
-- 
2.43.0


From 2253094e24c04b8d5f6e9256fdd7b915272b4bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 14/17] fix: return a nil slice for a NULL array result

---
 generator/gen_bindings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/gen_bindings.go b/generator/gen_bindings.go
index 34f1079..b0633aa 100644
--- a/generator/gen_bindings.go
+++ b/generator/gen_bindings.go
@@ -907,8 +907,8 @@ func (gen *Generator) proxyRetToGo(memTip tl.Tip, varName, ptrName string,
 		return proxy, helper.Nillable
 	case isPlain && goSpec.Slices != 0: // ex: []byte
 		specStr := ptrs(goSpec.Pointers) + goSpec.PlainType()
-		proxy = fmt.Sprintf("%s := (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]",
-			varName, gen.maxMem, specStr, ptrName)
+		proxy = fmt.Sprintf("var %s []%s\nif %s != nil {\n%s = (*(*[%s]%s)(unsafe.Pointer(%s)))[:0]\n}",
+			varName, specStr, ptrName, varName, gen.maxMem, specStr, ptrName)
 		return
 	case isPlain: // ex: byte, [4]byte
 		if (goSpec.Kind == tl.PlainTypeKind || goSpec.Kind == tl.EnumKind) &&
-- 
2.43.0


From 3867771e23bcf72de7885db6e1abcebc07beee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 15/17] fix: do not search past a header that cannot be read

---
 parser/parser.go | 69 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 66 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index affa2d8..bb73a1d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -3,6 +3,8 @@ package parser
 import (
 	"errors"
 	"fmt"
+	"io"
+	"io/fs"
 	"log"
 	"os"
 	"os/exec"
@@ -10,6 +12,7 @@ import (
 	"runtime"
 	"sort"
 	"strings"
+	"syscall"
 
 	"modernc.org/cc/v4"
 )
@@ -98,6 +101,8 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 	ccConfig.Predefined += predefined
 	ccConfig.IncludePaths = append(ccConfig.IncludePaths, cfg.IncludePaths...)
 	ccConfig.SysIncludePaths = append(ccConfig.SysIncludePaths, cfg.SysIncludePaths...)
+	files := &sourceFS{}
+	ccConfig.FS = files
 	var sources []cc.Source
 	sources = append(sources, cc.Source{Name: "<predefined>", Value: ccConfig.Predefined})
 	sources = append(sources, cc.Source{Name: "<builtin>", Value: cc.Builtin})
@@ -106,7 +111,65 @@ func ParseWith(cfg *Config) (*cc.AST, error) {
 			Name: sourceEntry,
 		})
 	}
-	return cc.Translate(ccConfig, sources)
+	unit, err := cc.Translate(ccConfig, sources)
+	if files.err != nil {
+		return nil, files.err
+	}
+	return unit, err
+}
+
+// sourceFS opens sources and headers and remembers the first one that is there
+// but cannot be read: cc takes it for missing and searches on, and may then
+// include another header of the same name.
+type sourceFS struct {
+	err error
+}
+
+func (s *sourceFS) failed(err error) error {
+	if s.err == nil && err != io.EOF {
+		s.err = fmt.Errorf("parser: cannot read a header: %v", err)
+	}
+	return err
+}
+
+func (s *sourceFS) Open(name string) (fs.File, error) {
+	f, err := os.Open(name)
+	if isMissing(err) {
+		return nil, err
+	} else if err != nil {
+		return nil, s.failed(err)
+	}
+	if info, err := f.Stat(); err == nil && info.IsDir() {
+		f.Close()
+		return nil, os.ErrNotExist
+	}
+	return sourceFile{f, s}, nil
+}
+
+type sourceFile struct {
+	fs.File
+	s *sourceFS
+}
+
+func (f sourceFile) Read(buf []byte) (int, error) {
+	n, err := f.File.Read(buf)
+	if err != nil {
+		err = f.s.failed(err)
+	}
+	return n, err
+}
+
+func (f sourceFile) Close() error {
+	err := f.File.Close()
+	if err != nil {
+		err = f.s.failed(err)
+	}
+	return err
+}
+
+// isMissing tells a file that is not there from one that cannot be accessed.
+func isMissing(err error) bool {
+	return errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR)
 }
 
 func checkConfig(cfg *Config) (*Config, error) {
@@ -143,12 +206,12 @@ func checkConfig(cfg *Config) (*Config, error) {
 }
 
 func findFile(path string, includePaths []string) (string, error) {
-	if _, err := os.Stat(path); err == nil {
+	if _, err := os.Stat(path); !isMissing(err) {
 		return path, nil
 	}
 	for _, inc := range includePaths {
 		result := filepath.Join(inc, path)
-		if _, err := os.Stat(result); err == nil {
+		if _, err := os.Stat(result); !isMissing(err) {
 			return result, nil
 		}
 	}
-- 
2.43.0


From c8e644da7a4b84c92a38bd5ff38ee7fed2fad193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 16/17] fix: do not pass over a configuration file that cannot
 be accessed

---
 main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main.go b/main.go
index ead1923..4f5ef61 100644
--- a/main.go
+++ b/main.go
@@ -121,6 +121,8 @@ func configFromDir(path string) (string, bool) {
 		path := filepath.Join(path, name)
 		if info, err := os.Stat(path); err == nil && !info.IsDir() {
 			return path, true
+		} else if err != nil && !os.IsNotExist(err) {
+			return path, true // it is there, reading it will tell what is wrong
 		}
 	}
 	return "", false
-- 
2.43.0


From 34f05630fdd6e289150fb548c58b41d9e598386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 17/17] fix: give the parameters of a callback proxy one name

A parameter whose name is another one's with a leading c was declared
under one name and used under another; the generated package did not
compile.
---
 generator/gen_callbacks.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/generator/gen_callbacks.go b/generator/gen_callbacks.go
index 658ff53..f4a38eb 100644
--- a/generator/gen_callbacks.go
+++ b/generator/gen_callbacks.go
@@ -193,13 +193,6 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 	spec := funcSpec.(*tl.CFunctionSpec)
 	to = make([]proxyDecl, 0, len(spec.Params))
 
-	cNamesSeen := make(map[string]struct{}, len(spec.Params))
-	for _, param := range spec.Params {
-		if len(param.Name) > 0 {
-			cNamesSeen[param.Name] = struct{}{}
-		}
-	}
-
 	crc := getRefCRC(funcSpec)
 	ptrTipRx, typeTipRx, memTipRx := gen.tr.TipRxsForSpec(tl.TipScopeFunction, funcName, funcSpec)
 	for i, param := range spec.Params {
@@ -215,14 +208,8 @@ func (gen *Generator) createCallbackProxies(funcName string, funcSpec tl.CType)
 		}
 		toBuf := new(bytes.Buffer)
 
+		// the same name writeCallbackProxyFuncParams declares
 		cname := "c" + refName
-		_, seen := cNamesSeen[cname]
-		for seen {
-			cname = "c" + cname
-			_, seen = cNamesSeen[cname]
-		}
-		cNamesSeen[cname] = struct{}{}
-
 		refName = fmt.Sprintf("%s%2x", refName, crc)
 		toProxy, _ := gen.proxyCallbackArgToGo(memTipRx.TipAt(i), refName, cname, goSpec, cgoSpec)
 		if len(toProxy) > 0 {
-- 
2.43.0

