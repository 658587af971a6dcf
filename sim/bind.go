package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The binding simulator: the tool (itself simulated) binds a generated C
// library, the result is compiled together with a harness and the simulated
// Go runtime, and runs with every choice made by seeds: schedule, moments of
// collections and finalizers, nested calls, allocation failures.

type shapeBin struct {
	once    sync.Once
	path    string
	problem string // the bindings cannot be generated or compiled
	err     error
}

var harnessFiles = []string{"zz_wrap.h", "zz_rt.h", "zz_rt.c", "zz_rt.go.txt"}

// shapeFiles are the inputs of the tool and the harness for a shape.
func shapeFiles(seed int64) (in, harness map[string]string, err error) {
	s := newShape(seed)
	in = map[string]string{"in/vt.h": s.header(), "in/vt.yml": s.manifest()}
	harness = map[string]string{
		"vt.h": s.header(), "zz_vt.h": s.vtHeader(), "zz_vt.c": "#define ZZ_RAW\n" + s.csource(),
		"zz_ops.go": s.goSource(), "go.mod": "module vt\n\ngo 1.21\n",
	}
	for _, n := range harnessFiles {
		b, err := os.ReadFile(filepath.Join(verifDir, "sim/bind", n))
		if err != nil {
			return nil, nil, err
		}
		harness[strings.TrimSuffix(n, ".txt")] = string(b)
	}
	return in, harness, nil
}

func writeFiles(dir string, files map[string]string) error {
	for n, c := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(c), 0644); err != nil {
			return err
		}
	}
	return nil
}

// writeShape puts the C library and the manifest of a shape into dir/in, and
// the harness files into dir/out/main.
func writeShape(seed int64, dir string) error {
	in, harness, err := shapeFiles(seed)
	if err != nil {
		return err
	}
	if err := writeFiles(dir, in); err != nil {
		return err
	}
	return writeFiles(dir+"/out/main", harness)
}

// shape returns the simulated program of a shape, building it on first use.
func (s *Sim) shape(sl *Slot, seed int64) *shapeBin {
	s.mu.Lock()
	if s.shapes == nil {
		s.shapes = map[int64]*shapeBin{}
	}
	b := s.shapes[seed]
	if b == nil {
		b = &shapeBin{}
		s.shapes[seed] = b
	}
	s.mu.Unlock()
	b.once.Do(func() { b.problem, b.err = s.buildShape(sl, seed, b) })
	return b
}

func (s *Sim) buildShape(sl *Slot, seed int64, b *shapeBin) (string, error) {
	in, harness, err := shapeFiles(seed)
	if err != nil {
		return "", err
	}
	rs, err := s.play(sl, History{Files: in, Steps: []Step{{Kind: "run", Params: calm(), Args: []string{"-nostamp", "-fancy=false", "-out", "<root>/out", "<root>/in/vt.yml"}}}})
	if err != nil {
		return "", err
	}
	if rs[0].Code != 0 {
		return fmt.Sprintf("generate: the tool fails on the header of a shape (code %d %s): %s", rs[0].Code, rs[0].Signal, cut(strings.TrimSpace(rs[0].Stderr), 400)), nil
	}
	dir := filepath.Join(s.bindDir, fmt.Sprint(seed))
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	for n, c := range rs[0].Tree {
		if rest, ok := strings.CutPrefix(n, "main/"); ok && strings.HasPrefix(c, "f:") {
			if _, dup := harness[rest]; dup {
				return "generate: unexpected file " + n, nil
			}
			harness[rest] = c[2:]
		}
	}
	if err := writeFiles(dir, harness); err != nil {
		return "", err
	}
	c := exec.Command(realGoroot()+"/bin/go", "build", "-buildvcs=false", "-trimpath", "-tags", "faketime", "-overlay", buildDir+"/overlay/overlay.json", "-ldflags", "-s -w", "-o", "vt", ".")
	c.Dir = dir
	c.Env = append(goEnv(), "GOFLAGS=", "GOWORK=off", "GOEXPERIMENT=nosizespecializedmalloc", "GOCACHE="+buildDir+"/gocache", "CGO_ENABLED=1", "CGO_CFLAGS_ALLOW=.*", "CGO_CFLAGS=-O1 -g0", "LC_ALL=C")
	out, err := c.CombinedOutput()
	if err != nil {
		if strings.Contains(string(out), "no space left") || strings.Contains(string(out), "cannot allocate memory") || strings.Contains(string(out), "signal: killed") {
			return "", fmt.Errorf("%w: building shape %d: %s", errInfra, seed, cut(string(out), 600))
		}
		return "compile: the bindings of a shape do not compile: " + strings.ReplaceAll(cut(string(out), 600), dir, "."), nil
	}
	b.path = dir + "/vt"
	return "", nil
}

func (s *Sim) dropShape(seed int64) {
	s.mu.Lock()
	delete(s.shapes, seed)
	s.mu.Unlock()
	os.RemoveAll(filepath.Join(s.bindDir, fmt.Sprint(seed)))
}

// VT options

func vtString(m map[string]uint64) string {
	var ks []string
	for k, v := range m {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, m[k])
	}
	return strings.Join(ks, ",")
}

func vtMap(s string) map[string]uint64 {
	m := map[string]uint64{}
	for _, kv := range strings.Split(s, ",") {
		k, v, ok := strings.Cut(kv, "=")
		if ok {
			m[k], _ = strconv.ParseUint(v, 10, 64)
		}
	}
	return m
}

// concerns maps what the harness saw to the properties it breaks.
func concerns(line string) (props []string, text string) {
	id, text, _ := strings.Cut(line, " ")
	props = []string{id}
	class, _, _ := strings.Cut(text, ":")
	freed := strings.Contains(text, "<FREED>")
	switch id + " " + class {
	case "P11 entry", "P11 during", "P11 late":
		props = append(props, "P13")
		if freed {
			props = append(props, "P12")
		}
	case "P13 args":
		props = append(props, "P11")
	case "P13 back", "P13 later", "P13 result", "P13 read":
		if freed {
			props = append(props, "P12")
		}
	case "P12 use-after-free":
		props = append(props, "P11")
	case "P12 changed":
		props = append(props, "P13")
	case "P13 panic":
		props = []string{"P11", "P12", "P13", "P14", "P15"}
	}
	if id == "P13" && strings.Contains(text, "was overwritten") {
		props = append(props, "P11", "P12")
	}
	return props, text
}

var reDone = regexp.MustCompile(`(?m)^DONE (.*)$`)

func oracleBind(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	first := ""
	for _, r := range sub {
		if r.Problem != "" {
			return r.Problem
		}
		for _, l := range strings.Split(r.Stdout, "\n") {
			rest, ok := strings.CutPrefix(l, "VIOL ")
			if !ok {
				continue
			}
			ps, text := concerns(rest)
			for _, p := range ps {
				if p != c.Property {
					continue
				}
				d := *c
				d.Violation = text
				if knownMatch(&d) == "" {
					return text
				}
				if first == "" {
					first = text
				}
			}
		}
		if reDone.MatchString(r.Stdout) && r.Code == 0 {
			continue
		}
		st := lastRun(c)
		if vtMap(st.VT)["fail"] != 0 && strings.Contains(r.Stderr, "runtime: C malloc failed") {
			continue // cgo's own allocation: the process stops before C is entered
		}
		if r.Code == 98 || r.Code == 97 || r.Signal == "killed" {
			return fmt.Sprintf("hang: the calls do not end within their bound (code %d %s)", r.Code, r.Signal)
		}
		return fmt.Sprintf("crash: the program ends with code %d %s: %s", r.Code, r.Signal, bindCrash(r.Stderr))
	}
	return first
}

// bindKnown lists the known findings a run of the bindings shows.
func bindKnown(c *Case, sub []*RunResult) (ids []string) {
	if c.Oracle != "bind" {
		return nil
	}
	seen := map[string]bool{}
	for _, r := range sub {
		for _, l := range strings.Split(r.Stdout, "\n") {
			if rest, ok := strings.CutPrefix(l, "VIOL "); ok {
				d := *c
				_, d.Violation = concerns(rest)
				if id := knownMatch(&d); id != "" && !seen[id] {
					seen[id] = true
					ids = append(ids, id)
				}
			}
		}
	}
	return ids
}

func lastRun(c *Case) Step {
	for i := len(c.Sub) - 1; i >= 0; i-- {
		if c.Sub[i].Kind == "run" {
			return c.Sub[i]
		}
	}
	return Step{}
}

func bindCrash(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "[signal") || strings.HasPrefix(l, "SIG") {
			return cut(l, 200)
		}
	}
	return cut(strings.TrimSpace(s), 200)
}

// bindPerturb draws the schedule of a run of the bindings.
func bindPerturb(r *rand.Rand) Params {
	p := perturb(r)
	p.Alt = false
	p.Heap = 0
	p.Prio = 0 // the harness waits for finalizers by yielding to them
	return p
}

func bindModes(prop string, r *rand.Rand, k int) map[string]uint64 {
	m := map[string]uint64{"seed": uint64(r.Int63n(1 << 40)), "g": uint64(1 + r.Intn(4)), "ops": uint64(10 + r.Intn(30))}
	if r.Intn(3) > 0 {
		m["nest"] = 1
	}
	if r.Intn(2) == 0 {
		m["allocpoint"] = uint64(20 + r.Intn(300))
	}
	switch prop {
	case "P11":
		switch k % 4 {
		case 1:
			m["drop"] = 1
		case 2:
			m["values"] = 1
		}
	case "P12":
		if k == 0 {
			return map[string]uint64{"seed": m["seed"], "probe": 1, "g": 1}
		}
		if k%3 > 0 {
			m["focus"] = 12
		}
	case "P13":
		if k%3 == 1 {
			m["values"] = 1
		}
	case "P14":
		if k == 0 {
			return map[string]uint64{"seed": m["seed"], "probe": 1, "g": 1}
		}
		if k%4 > 0 {
			m["focus"] = 14
		}
	case "P15":
		m["fail"], m["g"] = 1, 1
		delete(m, "nest")
		if k%2 == 0 {
			m["values"] = 1
		}
		if k%4 > 1 {
			m["focus"] = 12
		}
	}
	return m
}

func pBind(x *Explorer, sl *Slot, seed int64) {
	r := rand.New(rand.NewSource(seed))
	b := x.s.shape(sl, seed)
	if b.err != nil {
		x.fail(b.err)
		return
	}
	x.inputs.Add(1)
	n := 40
	if x.tier == "thorough" {
		n = 150
	}
	for k := 0; k < n && !x.done(); k++ {
		m := bindModes(x.prop.id, r, k)
		st := Step{Kind: "run", Tool: "shape", Params: bindPerturb(r), VT: vtString(m)}
		c := Case{Oracle: "bind", InputSeed: seed, Sub: []Step{st}, Note: "shape " + fmt.Sprint(seed)}
		rs := x.try(sl, c, nil)
		if rs == nil {
			break
		}
		x.bindStats(rs[0])
	}
	if x.found == nil {
		x.s.dropShape(seed)
	}
}

func (x *Explorer) bindStats(r *RunResult) {
	d := reDone.FindStringSubmatch(r.Stdout)
	if d == nil {
		if strings.Contains(r.Stderr, "C malloc failed") {
			x.count("process_stopped_by_cgo_malloc_failure", 1)
		}
		return
	}
	for _, kv := range strings.Fields(d[1]) {
		k, v, _ := strings.Cut(kv, "=")
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			continue
		}
		x.count(k, n)
		if k == "failed" && n > 0 {
			x.s.mu.Lock()
			x.s.faults["calloc:fails"] += n
			x.s.mu.Unlock()
		}
	}
}

var bindReal = []string{"the bindings as c-for-go (built from /repo, itself run under the simulator) generates them", "cgo and the C compiler's code", "Go runtime scheduler, collector, finalizers, channels, locks (instrumented)"}
var bindStub = []string{"the bound C library: generated, it checks and logs what it sees", "malloc/calloc/free seen by the bindings: a tracking allocator that never reuses an address", "clock and random source: simulated", "moments of collections and of goroutine switches: drawn from the seed at C entry, C exit, allocator calls, callbacks and between calls"}
var bindAssume = []string{
	"one P: goroutines interleave at locks, map writes, channel operations, C entry and exit, callbacks and allocator calls, not within single machine instructions",
	"bound libraries come from the seeded grammar of sim/bindgen.go, with and without SafeStrings, LenFields, StructAccessors and Go strings",
}

func init() {
	oracles["bind"] = oracleBind
	add := func(id, level, rule string) {
		props[id] = &Prop{id: id, level: level, quick: 1 << 30, quickS: 60, thorS: 1500, rule: rule, one: pBind, assume: bindAssume, real: bindReal, stub: bindStub, bind: true}
	}
	add("P11", "exploration", "A case is one program of calls from several goroutines through the bindings of one generated library, under a drawn schedule with collections and finalizer runs at drawn points; what C sees at entry and again before return has to be the converted arguments in valid memory. Non-trivial: the schedule departs from first-in first-out; distinct by library, program and choices.")
	add("P12", "exploration", "A case is one program of create, pass, hold, copy, free, drop and collect steps; every allocator call is checked and nothing may be left at the end. Non-trivial and distinct as in P11.")
	add("P13", "exploration", "A case is one program of calls whose arguments, results, altered memory and held structs are compared on both sides. Non-trivial and distinct as in P11.")
	add("P14", "exploration", "A case is one program of calls that make C call back, with several callback types, nested and interleaved. Non-trivial and distinct as in P11.")
	add("P15", "fault_enumeration", "A case is one program of calls during which drawn allocations fail, each call being repeated with memory back. Non-trivial: an allocation failed or the schedule departed from first-in first-out; distinct as in P11.")
}
