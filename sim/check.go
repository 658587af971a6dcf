package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one judged execution: a scratch tree, the reference steps and the
// subject steps played on it, and the oracle that compares them. It is also
// the replay file.
type Case struct {
	Property  string            `json:"property"`
	Oracle    string            `json:"oracle"`
	Inexact   bool              `json:"inexact,omitempty"` // the run is not reproduced bit for bit
	Violation string            `json:"violation"`
	InputSeed int64             `json:"input_seed"`
	Slot      int               `json:"slot"`
	Files     map[string]string `json:"files"`
	Pkgs      []string          `json:"pkgs,omitempty"`
	Alts      [][]Step          `json:"references,omitempty"` // each played from scratch
	Sub       []Step            `json:"steps"`
	Note      string            `json:"note,omitempty"`
	Hashes    []string          `json:"hashes,omitempty"` // of the subject runs
	Trace     []string          `json:"trace,omitempty"`  // operation log of the last subject run
}

type Oracle func(c *Case, refs [][]*RunResult, sub []*RunResult) string

var oracles = map[string]Oracle{}

// Explorer runs one check.
type Explorer struct {
	s        *Sim
	prop     *Prop
	tier     string
	seed     int64
	deadline time.Time

	evals   atomic.Int64
	stop    atomic.Bool
	mu      sync.Mutex
	nontriv map[uint64]struct{}
	samples []any
	found   *Case
	known   map[string]int
	notes   map[string]int64
	infra   error
	inputs  atomic.Int64
	feats   map[string]int
}

type Prop struct {
	id      string
	level   string
	quick   int // seeds
	quickS  int // seconds
	thorS   int
	rule    string
	assume  []string
	real    []string
	stub    []string
	bind    bool // about the generated bindings
	one     func(x *Explorer, sl *Slot, seed int64)
	prepare func(x *Explorer) error
}

var props = map[string]*Prop{}

func (x *Explorer) count(k string, n int64) {
	x.mu.Lock()
	x.notes[k] += n
	x.mu.Unlock()
}

func (x *Explorer) done() bool { return x.stop.Load() || time.Now().After(x.deadline) }

func (x *Explorer) fail(err error) {
	x.mu.Lock()
	if x.infra == nil {
		x.infra = err
	}
	x.mu.Unlock()
	x.stop.Store(true)
}

// play plays reference steps; nil on infrastructure errors.
func (x *Explorer) play(sl *Slot, files map[string]string, steps []Step) []*RunResult {
	rs, err := x.s.play(sl, History{Files: files, Steps: steps})
	if err != nil {
		x.fail(err)
		return nil
	}
	return rs
}

// try judges one case. refs may carry the already played references.
func (x *Explorer) try(sl *Slot, c Case, refs [][]*RunResult) []*RunResult {
	if x.done() {
		return nil
	}
	c.Property = x.prop.id
	c.Slot = sl.k
	if err := x.shapesOf(sl, &c); err != nil {
		x.fail(err)
		return nil
	}
	sub := x.play(sl, c.Files, c.Sub)
	if sub == nil {
		return nil
	}
	x.evals.Add(1)
	x.noteRun(&c, sub)
	v := oracles[c.Oracle](&c, refs, sub)
	if v == "" {
		return sub
	}
	c.Violation = v
	if ids := bindKnown(&c, sub); len(ids) > 0 && knownMatch(&c) != "" {
		x.mu.Lock()
		for _, id := range ids {
			x.known[id]++
		}
		x.mu.Unlock()
		return sub
	}
	x.report(sl, c)
	return nil
}

func (x *Explorer) noteRun(c *Case, sub []*RunResult) {
	h := uint64(c.InputSeed)
	interesting := false
	for _, r := range sub {
		h = h*1099511628211 ^ r.Page[pgSchedHash] ^ r.Page[pgPreempts]<<40
		if r.Page[pgSchedNonDefault] > 0 || r.Page[pgPreempts] > 0 || r.Page[pgClockJumps] > 0 {
			interesting = true
		}
		for _, l := range strings.Split(r.Log, "\n") {
			if i := strings.Index(strings.ToLower(l), "fault="); i >= 0 && len(l) > i+6 {
				interesting = true
				h ^= fnvOf(l)
			}
		}
	}
	for _, st := range c.Sub {
		if st.VT != "" {
			h ^= fnvOf(st.VT)
		}
	}
	for _, st := range c.Sub {
		if st.Kind != "run" {
			h ^= fnvOf(st.Kind, st.Path, st.Data, fmt.Sprint(st.N))
			interesting = true
		}
	}
	if !interesting {
		return
	}
	x.mu.Lock()
	x.nontriv[h] = struct{}{}
	if len(x.samples) < 3 && x.evals.Load()%7 == 1 {
		last := sub[len(sub)-1]
		x.samples = append(x.samples, map[string]any{
			"input_seed": c.InputSeed, "oracle": c.Oracle, "note": c.Note, "steps": c.Sub,
			"exit": last.Code, "ops": len(last.ops()), "sched_choices": last.Page[pgSchedChoices], "preemptions": last.Page[pgPreempts],
			"verdict": "held",
		})
	}
	x.mu.Unlock()
}

func vkey(v string) string {
	k, _, _ := strings.Cut(v, ":")
	return k
}

// eval plays a case completely.
func (x *Explorer) eval(sl *Slot, c *Case) (string, []*RunResult, error) {
	if err := x.shapesOf(sl, c); err != nil {
		return "", nil, err
	}
	var refs [][]*RunResult
	for _, a := range c.Alts {
		r, err := x.s.play(sl, History{Files: c.Files, Steps: a})
		if err != nil {
			return "", nil, err
		}
		refs = append(refs, r)
	}
	sub, err := x.s.play(sl, History{Files: c.Files, Steps: c.Sub})
	if err != nil {
		return "", nil, err
	}
	return oracles[c.Oracle](c, refs, sub), sub, nil
}

// shapesOf makes the programs a case runs; building one uses the slot.
func (x *Explorer) shapesOf(sl *Slot, c *Case) error {
	for i := range c.Sub {
		if c.Sub[i].Tool == "shape" {
			c.Sub[i].shape = c.InputSeed
			if b := x.s.shape(sl, c.InputSeed); b.err != nil {
				return b.err
			}
		}
	}
	return nil
}

func hashesOf(rs []*RunResult) []string {
	var out []string
	for _, r := range rs {
		out = append(out, strconv.FormatUint(r.Hash, 16))
	}
	return out
}

func (x *Explorer) report(sl *Slot, c Case) {
	if id := knownMatch(&c); id != "" {
		x.mu.Lock()
		x.known[id]++
		x.mu.Unlock()
		return
	}
	x.mu.Lock()
	if x.found != nil {
		x.mu.Unlock()
		return
	}
	cc := c
	x.found = &cc
	x.mu.Unlock()
	x.stop.Store(true)
	// confirm and minimise
	v1, r1, err1 := x.eval(sl, &c)
	v2, r2, err2 := x.eval(sl, &c)
	if err1 != nil || err2 != nil {
		x.fail(fmt.Errorf("replaying a violation: %v %v", err1, err2))
		return
	}
	exact := v1 != "" && v1 == v2 && strings.Join(hashesOf(r1), ",") == strings.Join(hashesOf(r2), ",")
	if !exact {
		// the changed code brings in nondeterminism of its own
		for i := 0; i < 6 && (v2 == "" || vkey(v2) != vkey(c.Violation)); i++ {
			if v2, r2, err2 = x.eval(sl, &c); err2 != nil {
				x.fail(err2)
				return
			}
		}
		if v2 == "" || vkey(v2) != vkey(c.Violation) {
			x.fail(fmt.Errorf("%w: a violation does not replay: %q / %q", errInfra, c.Violation, v1))
			return
		}
		c.Violation, c.Hashes, c.Inexact = v2, hashesOf(r2), true
		c.Trace = traceOf(r2[len(r2)-1])
		x.mu.Lock()
		x.found = &c
		x.mu.Unlock()
		return
	}
	m := x.minimise(sl, c)
	v, r, err := x.eval(sl, &m)
	if err != nil || v == "" {
		m = c
		v, r = v2, r2
	}
	m.Violation = v
	m.Hashes = hashesOf(r)
	if len(r) > 0 {
		m.Trace = traceOf(r[len(r)-1])
	}
	x.mu.Lock()
	x.found = &m
	x.mu.Unlock()
}

func traceOf(r *RunResult) []string {
	var out []string
	for _, l := range strings.Split(r.Log, "\n") {
		if l != "" {
			out = append(out, cut(l, 300))
		}
	}
	if len(out) > 120 {
		out = append([]string{fmt.Sprintf("... %d earlier operations", len(out)-120)}, out[len(out)-120:]...)
	}
	return append(out, fmt.Sprintf("EXIT %d %s", r.Code, r.Signal), cut(strings.TrimSpace(r.Stderr), 600))
}

// minimise shrinks the plan, the schedule and the input while the same kind
// of violation remains.
func (x *Explorer) minimise(sl *Slot, c Case) Case {
	key := vkey(c.Violation)
	limit := time.Now().Add(25 * time.Second)
	tries := 0
	ok := func(d Case) bool {
		if tries > 400 || time.Now().After(limit) {
			return false
		}
		tries++
		v, _, err := x.eval(sl, &d)
		d.Violation = v
		return err == nil && v != "" && vkey(v) == key && knownMatch(&d) == ""
	}
	accept := func(d Case) bool {
		if ok(d) {
			c = d
			return true
		}
		return false
	}
	// parameters of the runs
	for i := range c.Sub {
		if c.Sub[i].Kind != "run" {
			continue
		}
		mut := func(f func(*Params)) {
			d := cloneCase(c)
			f(&d.Sub[i].Params)
			if d.Sub[i].Params != c.Sub[i].Params {
				accept(d)
			}
		}
		mut(func(p *Params) {
			k := calm()
			if p.Limit > k.Limit {
				k.Limit = p.Limit
			}
			if p.TickLim > k.TickLim {
				k.TickLim = p.TickLim
			}
			*p = k
		})
		mut(func(p *Params) { p.SkewPM, p.SkewMax = 0, 0 })
		mut(func(p *Params) { p.MapYield = 0 })
		mut(func(p *Params) { p.Prio = 0 })
		mut(func(p *Params) { p.PausePM, p.PauseMax = 0, 0 })
		mut(func(p *Params) { p.Yield = 0 })
		mut(func(p *Params) { p.Advance, p.Time = 1000, 0 })
		mut(func(p *Params) { p.Interval = 20000 })
		mut(func(p *Params) { p.Heap, p.Alt = 0, false })
		mut(func(p *Params) { p.Rand = 1 })
		mut(func(p *Params) { p.SchedLim = -1 })
		if c.Sub[i].Params.SchedLim >= 0 {
			lo, hi := int64(0), int64(1<<14)
			if c.Sub[i].Params.SchedLim > 0 {
				hi = c.Sub[i].Params.SchedLim
			}
			for hi-lo > 1 {
				mid := (lo + hi) / 2
				d := cloneCase(c)
				d.Sub[i].Params.SchedLim = mid
				if accept(d) {
					hi = mid
				} else {
					lo = mid
				}
				if time.Now().After(limit) {
					break
				}
			}
		}
		// the program around the bindings
		if c.Sub[i].VT != "" {
			set := func(k string, v uint64) bool {
				d := cloneCase(c)
				m := vtMap(d.Sub[i].VT)
				if m[k] == v {
					return false
				}
				m[k] = v
				d.Sub[i].VT = vtString(m)
				return accept(d)
			}
			for _, k := range []string{"allocpoint", "nest", "focus", "values", "drop"} {
				set(k, 0)
			}
			set("calm", 1)
			for g := uint64(1); g < vtMap(c.Sub[i].VT)["g"]; g++ {
				if set("g", g) {
					break
				}
			}
			for {
				n := vtMap(c.Sub[i].VT)["ops"]
				if n > 1 && (set("ops", n/2) || set("ops", n-1)) {
					continue
				}
				break
			}
		}
		// plan items
		parts := strings.Split(c.Sub[i].Plan, ";")
		for j := 0; j < len(parts) && len(parts) > 1; {
			q := append(append([]string{}, parts[:j]...), parts[j+1:]...)
			d := cloneCase(c)
			d.Sub[i].Plan = strings.Join(q, ";")
			if accept(d) {
				parts = q
			} else {
				j++
			}
		}
	}
	// whole steps
	for i := 0; i < len(c.Sub) && len(c.Sub) > 1; {
		if c.Sub[i].Kind == "run" && i == len(c.Sub)-1 {
			break
		}
		d := cloneCase(c)
		d.Sub = append(d.Sub[:i:i], d.Sub[i+1:]...)
		if !accept(d) {
			i++
		}
	}
	// input: header lines and manifest entries
	var names []string
	for n := range c.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasSuffix(n, ".h") {
			lines := strings.SplitAfter(c.Files[n], "\n")
			for size := len(lines) / 2; size >= 1; size /= 2 {
				for i := 0; i+size <= len(lines); {
					if time.Now().After(limit) {
						return c
					}
					q := append(append([]string{}, lines[:i]...), lines[i+size:]...)
					d := cloneCase(c)
					d.Files[n] = strings.Join(q, "")
					// headers stay well-formed: a lost include guard is another failure
					kept := strings.Count("\n"+d.Files[n], "\n#") == strings.Count("\n"+c.Files[n], "\n#")
					if kept && accept(d) {
						lines = q
					} else {
						i += size
					}
				}
			}
		}
	}
	return c
}

func cloneCase(c Case) Case {
	b, _ := json.Marshal(c)
	var d Case
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return d
}

// perturb draws the nondeterminism of one subject run.
func perturb(r *rand.Rand) Params {
	p := calm()
	p.Seed = uint64(r.Int63n(1 << 40))
	p.Rand = 1 + uint64(r.Int63n(1<<40))
	p.SchedLim = 0
	pick := func(v ...uint64) uint64 { return v[r.Intn(len(v))] }
	p.Interval = pick(50, 200, 1000, 5000, 20000)
	p.Advance = pick(100, 1000, 100000, 10000000, 200000000)
	p.Yield = pick(0, 100, 400, 800, 1000)
	p.MapYield = pick(0, 0, 200, 600)
	p.Prio = pick(0, 0, 0, 10, 100, 1000, 20000)
	if r.Intn(4) == 0 {
		p.PausePM, p.PauseMax = pick(10, 300, 5000), pick(2, 60, 7200)
	}
	p.Heap = pick(0, 1, 5, 77)
	p.Alt = r.Intn(2) == 0
	if p.Interval < 1000 {
		p.TickLim = 40000000
	}
	if p.Advance >= 10000000 {
		p.Limit = 360000
	}
	return p
}

func knownMatch(c *Case) string {
	for _, k := range knownFindings() {
		if k.Property == c.Property && k.match(c) {
			return k.ID
		}
	}
	return ""
}

func runCheck(id, tier string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "vsim: no check for", id)
		return 2
	}
	t0 := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	tool, gr, err := buildAll()
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	s, err := newSim(tool, gr, realGoroot(), 8)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	defer s.close()
	x := &Explorer{s: s, prop: p, tier: tier, seed: seed, nontriv: map[uint64]struct{}{}, known: map[string]int{}, notes: map[string]int64{}, feats: map[string]int{}}
	if p.prepare != nil {
		if err := p.prepare(x); err != nil {
			fmt.Fprintln(os.Stderr, "vsim:", err)
			return 3
		}
	}
	n := int64(p.quick)
	secs := p.quickS
	if tier == "thorough" {
		n = 1 << 40
		secs = p.thorS
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SECONDS")); err == nil && v > 0 {
		secs = v
		n = 1 << 40
	}
	tx := time.Now()
	x.deadline = tx.Add(time.Duration(secs) * time.Second)
	var next atomic.Int64
	var wg sync.WaitGroup
	for range s.all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sl := <-s.slots
			defer func() { s.slots <- sl }()
			for !x.done() {
				i := next.Add(1) - 1
				if i >= n {
					return
				}
				p.one(x, sl, seed*1000003+i)
			}
		}()
	}
	wg.Wait()
	if x.infra != nil {
		fmt.Fprintln(os.Stderr, "vsim:", x.infra)
		return 3
	}
	if x.evals.Load() == 0 && x.found == nil {
		fmt.Fprintln(os.Stderr, "vsim: nothing was evaluated")
		return 3
	}
	viol := 0
	if x.found != nil {
		viol = 1
	}
	x.writeEvidence(tier, time.Since(t0), time.Since(tx), viol)
	for _, k := range knownFindings() {
		if k.Property == id {
			fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times in this run)\n", id, k.What, x.known[k.ID])
		}
	}
	if x.found != nil {
		c := x.found
		dir := verifDir + "/replays"
		os.MkdirAll(dir, 0755)
		b, _ := json.MarshalIndent(c, "", " ")
		file := filepath.Join(dir, fmt.Sprintf("%s-%x.json", id, fnvOf(string(b))))
		os.WriteFile(file, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		fmt.Printf("  %s\n  input seed %d, %s\n", c.Violation, c.InputSeed, c.Note)
		for _, st := range c.Sub {
			if st.Kind == "run" {
				fmt.Printf("  run plan=%q execplan=%q params=%s %s\n", st.Plan, st.ExecPlan, st.Params, st.VT)
			} else {
				fmt.Printf("  %s %s\n", st.Kind, st.Path)
			}
		}
		return 1
	}
	fmt.Printf("ok property=%s tier=%s seed=%d evaluations=%d runs=%d\n", id, tier, seed, x.evals.Load(), s.runs)
	return 0
}

func (x *Explorer) writeEvidence(tier string, wall, explored time.Duration, viol int) {
	s := x.s
	hours := explored.Hours()
	if hours == 0 {
		hours = 1e-9
	}
	cov := map[string]any{
		"evaluations":              x.evals.Load(),
		"distinct_nontrivial":      len(x.nontriv),
		"rule":                     x.prop.rule,
		"samples":                  x.samples,
		"simulated_runs":           s.runs,
		"simulated_runs_per_hour":  int64(float64(s.runs) / hours),
		"inputs":                   x.inputs.Load(),
		"simulated_seconds":        float64(s.simNS) / 1e9,
		"faults_injected":          s.faults,
		"distinct_interleavings":   len(s.hashes),
		"interleaving_measure":     "distinct hashes over the sequence of scheduler choices (chosen index, queue length) and the number of forced preemptions of a run",
		"scheduler_choices":        s.choices,
		"forced_preemptions":       s.preempts,
		"forced_yields":            s.yields,
		"yields_inside_map_writes": s.mapYields,
		"wall_clock_jumps":         s.clockJumps,
		"machine_pauses":           s.pauses,
		"idle_time_jumps":          s.idleJumps,
		"input_features":           x.feats,
		"real_components":          x.prop.real,
		"stubbed_components":       x.prop.stub,
		"counters":                 x.notes,
		"known_findings_met":       x.known,
	}
	ev := map[string]any{
		"property": x.prop.id, "tier": tier, "seed": x.seed, "level": x.prop.level,
		"coverage": cov, "wall_s": wall.Seconds(), "assumptions": x.prop.assume, "violations": viol,
	}
	os.MkdirAll(verifDir+"/evidence", 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(verifDir+"/evidence/"+x.prop.id+".json", append(b, '\n'), 0644)
}

// runReplay plays a replay file again; it must reproduce exactly.
func runReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	var c Case
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	tool, gr, err := buildAll()
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	s, err := newSim(tool, gr, realGoroot(), 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	sl := takeSlot(c.Slot, true)
	if sl == nil {
		fmt.Fprintln(os.Stderr, "vsim: cannot take the slot of the replay")
		return 3
	}
	s.all = append(s.all, sl)
	defer s.close()
	x := &Explorer{s: s, prop: props[c.Property], nontriv: map[uint64]struct{}{}, known: map[string]int{}, notes: map[string]int64{}, feats: map[string]int{}}
	if x.prop != nil && x.prop.prepare != nil {
		if err := x.prop.prepare(x); err != nil {
			fmt.Fprintln(os.Stderr, "vsim:", err)
			return 3
		}
	}
	v, r, err := x.eval(sl, &c)
	for i := 0; i < 8 && c.Inexact && v == "" && err == nil; i++ {
		v, r, err = x.eval(sl, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		return 3
	}
	if len(r) > 0 {
		for _, l := range traceOf(r[len(r)-1]) {
			fmt.Println(" ", l)
		}
	}
	fmt.Println(cut(r[len(r)-1].Stderr, 1500))
	same := strings.Join(hashesOf(r), ",") == strings.Join(c.Hashes, ",")
	fmt.Printf("exact=%v\n", same)
	if v == "" {
		fmt.Printf("replay: property=%s holds on this execution now\n", c.Property)
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", c.Property, file, v)
	return 1
}
