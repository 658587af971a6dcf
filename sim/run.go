package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	simRoot  = "/tmp/verif-sim"
	pageSize = 1 << 20
	logStart = 4096
	simUID   = 65534
)

// Params are the seeds and rates of one simulated run.
type Params struct {
	Seed     uint64 `json:"seed"`
	Rand     uint64 `json:"rand,omitempty"`
	Sched    uint64 `json:"sched,omitempty"`
	Clock    uint64 `json:"clock,omitempty"`
	Interval uint64 `json:"interval,omitempty"`
	Advance  uint64 `json:"advance,omitempty"`
	Yield    uint64 `json:"yield,omitempty"`
	MapYield uint64 `json:"mapyield,omitempty"`
	SchedLim int64  `json:"schedlim,omitempty"` // -1: first-in first-out from the start
	Prio     uint64 `json:"prio,omitempty"`     // scheduling choices for which drawn priorities last
	SkewPM   uint64 `json:"skewpm,omitempty"`
	SkewMax  uint64 `json:"skewmax,omitempty"`
	PausePM  uint64 `json:"pausepm,omitempty"` // per tick and 65536
	PauseMax uint64 `json:"pausemax,omitempty"`
	Limit    uint64 `json:"limit,omitempty"`
	TickLim  uint64 `json:"ticklimit,omitempty"`
	Time     uint64 `json:"time,omitempty"`
	Heap     uint64 `json:"heap,omitempty"` // heap base moved up by this many arenas
	Alt      bool   `json:"alt,omitempty"`  // the binary linked at another text address
}

func (p Params) String() string {
	s := fmt.Sprintf("seed=%d", p.Seed)
	add := func(k string, v uint64) {
		if v != 0 {
			s += fmt.Sprintf(",%s=%d", k, v)
		}
	}
	add("rand", p.Rand)
	add("sched", p.Sched)
	add("clock", p.Clock)
	add("interval", p.Interval)
	add("advance", p.Advance)
	add("yield", p.Yield)
	add("mapyield", p.MapYield)
	if p.SchedLim < 0 {
		s += ",schedlim=0"
	} else {
		add("schedlim", uint64(p.SchedLim))
	}
	add("prio", p.Prio)
	add("skewpm", p.SkewPM)
	add("skewmax", p.SkewMax)
	add("pausepm", p.PausePM)
	add("pausemax", p.PauseMax)
	add("limit", p.Limit)
	add("ticklimit", p.TickLim)
	add("time", p.Time)
	add("heap", p.Heap)
	return s
}

// calm is the reference execution: no perturbation at all.
func calm() Params {
	return Params{Seed: 1, Rand: 1, SchedLim: -1, Interval: 2000, Advance: 1000, Limit: 3600, TickLim: 4000000}
}

// Step is one action of a history.
type Step struct {
	Kind string `json:"kind"` // run, write, remove, truncate, mkdir, chmod, symlink
	// run
	Args     []string `json:"args,omitempty"`
	Params   Params   `json:"params"`
	Plan     string   `json:"plan,omitempty"`
	ExecPlan string   `json:"execplan,omitempty"`
	Env      []string `json:"env,omitempty"`
	Cwd      string   `json:"cwd,omitempty"`
	Tool     string   `json:"tool,omitempty"` // "shape": the program around the bindings of shape input_seed; "xl": the questioner of translators
	VT       string   `json:"vt,omitempty"`   // its options
	shape    int64
	// edits; Path is relative to the scratch root
	Path string `json:"path,omitempty"`
	Data string `json:"data,omitempty"`
	Mode uint32 `json:"mode,omitempty"`
	N    int    `json:"n,omitempty"`
}

// History is a scratch tree and the steps applied to it.
type History struct {
	Files map[string]string `json:"files"` // relative to the scratch root
	Steps []Step            `json:"steps"`
}

type Op struct {
	Seq   int
	T     int64
	Op    string
	Class string
	K     int
	Path  string
	N, R  int
	Errno int
	Fault string
}

type RunResult struct {
	Code    int // exit code; -1 killed by a signal
	Signal  string
	Stdout  string
	Stderr  string
	Page    [64]uint64
	Log     string
	LogFull bool
	Hash    uint64 // of everything observable: page, log, outputs
	Wall    time.Duration
	Problem string // the program under test could not be made
	Tree    Tree   // out tree afterwards
	InTree  Tree
}

type Tree map[string]string // relative path -> "f<perm>:content" / "d<perm>" / "l:target"

const (
	pgTicks = 1 + iota
	pgSchedChoices
	pgSchedNonDefault
	pgSchedHash
	pgYields
	pgPreempts
	pgRandDraws
	pgClockNow
	pgClockStart
	pgClockJumps
	pgLogOff
	pgIdleJumps
	pgSelectDraws
	pgGCs
	pgReason
	pgMapYields
	pgMaxRunq
	pgSkewMin
	pgSkewMax
	pgPauses
)
const pgFault0 = 32

var reAddr = regexp.MustCompile(`0x[0-9a-f]+|\b[0-9a-f]{12,16}\b|pid \d+`)

var errInfra = errors.New("infrastructure")

type Slot struct {
	k    int
	root string
	lock *os.File
}

type Sim struct {
	tool   string // simulated c-for-go
	alt    string // the same, linked elsewhere
	goroot string // goroot seen by the tool
	real   string // the real goroot
	slots  chan *Slot
	all    []*Slot

	bindDir string
	shapes  map[int64]*shapeBin

	mu                                                                  sync.Mutex
	trans                                                               map[string][]byte
	runs                                                                int64
	simNS                                                               int64
	faults                                                              map[string]int64
	hashes                                                              map[uint64]struct{} // distinct interleavings (schedule hash, choices)
	preempts, yields, choices, mapYields, clockJumps, idleJumps, pauses int64
}

func newSim(tool, goroot, real string, n int) (*Sim, error) {
	s := &Sim{tool: tool, alt: tool + "-alt", goroot: goroot, real: real, trans: map[string][]byte{}, faults: map[string]int64{}, hashes: map[uint64]struct{}{}}
	s.bindDir = fmt.Sprintf("%s/bind/p%08d", buildDir, os.Getpid())
	s.slots = make(chan *Slot, 64)
	if err := os.MkdirAll(simRoot, 0755); err != nil {
		return nil, err
	}
	os.Chmod(simRoot, 0755)
	for k := 0; k < 64 && len(s.all) < n; k++ {
		if sl := takeSlot(k, false); sl != nil {
			s.all = append(s.all, sl)
			s.slots <- sl
		}
	}
	if len(s.all) == 0 && n > 0 {
		return nil, fmt.Errorf("no free slot under %s", simRoot)
	}
	return s, nil
}

func takeSlot(k int, wait bool) *Slot {
	f, err := os.OpenFile(fmt.Sprintf("%s/.lock%02d", simRoot, k), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		return nil
	}
	how := syscall.LOCK_EX
	if !wait {
		how |= syscall.LOCK_NB
	}
	if err := syscall.Flock(int(f.Fd()), how); err != nil {
		f.Close()
		return nil
	}
	return &Slot{k: k, root: fmt.Sprintf("%s/w%02d", simRoot, k), lock: f}
}

func (s *Sim) close() {
	for _, sl := range s.all {
		os.RemoveAll(sl.root)
		sl.lock.Close()
	}
	if s.bindDir != "" {
		os.RemoveAll(s.bindDir)
	}
}

// withSlot runs f on any free slot (or exactly slot k when k >= 0).
func (s *Sim) withSlot(f func(*Slot)) {
	sl := <-s.slots
	defer func() { s.slots <- sl }()
	f(sl)
}

func (sl *Slot) path(p string) string { return filepath.Join(sl.root, p) }

func (s *Sim) setup(sl *Slot, files map[string]string) error {
	if err := os.RemoveAll(sl.root); err != nil {
		return err
	}
	for _, d := range []string{"", "in", "out", "ex", "home"} {
		if err := os.MkdirAll(sl.path(d), 0755); err != nil {
			return err
		}
		os.Chown(sl.path(d), simUID, simUID)
	}
	for p, c := range files {
		if err := sl.write(p, c); err != nil {
			return err
		}
	}
	return nil
}

func (sl *Slot) write(p, c string) error {
	full := sl.path(p)
	for d := filepath.Dir(p); d != "." && d != "/"; d = filepath.Dir(d) {
		if _, err := os.Stat(sl.path(d)); err == nil {
			break
		}
		defer os.Chown(sl.path(d), simUID, simUID)
	}
	if err := os.MkdirAll(filepath.Dir(full), 0755); err != nil {
		return err
	}
	c = strings.ReplaceAll(c, "<root>", sl.root)
	mode := os.FileMode(0644)
	if strings.HasPrefix(c, "#!") {
		mode = 0755
	}
	if err := os.WriteFile(full, []byte(c), mode); err != nil {
		return err
	}
	return os.Chown(full, simUID, simUID)
}

func snapshot(root string) Tree {
	t := Tree{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(root, p)
		if rel == "." {
			return nil
		}
		if err != nil {
			t[rel] = "error"
			return nil
		}
		info, err := d.Info()
		if err != nil {
			t[rel] = "error"
			return nil
		}
		switch {
		case d.IsDir():
			t[rel] = "d"
		case info.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[rel] = "l:" + l
		default:
			b, _ := os.ReadFile(p)
			t[rel] = "f:" + string(b)
		}
		return nil
	})
	return t
}

func (t Tree) files() []string {
	var out []string
	for k, v := range t {
		if strings.HasPrefix(v, "f:") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// diff describes the first difference of two trees ("" when equal).
func diffTrees(want, got Tree) string {
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, okw := want[k]
		g, okg := got[k]
		switch {
		case !okg:
			return fmt.Sprintf("%s is missing", k)
		case !okw:
			return fmt.Sprintf("%s is unexpected", k)
		case w != g:
			return fmt.Sprintf("%s differs: %s", k, diffText(w, g))
		}
	}
	return ""
}

func diffText(w, g string) string {
	wl, gl := strings.Split(w, "\n"), strings.Split(g, "\n")
	for i := 0; i < len(wl) || i < len(gl); i++ {
		a, b := "<end>", "<end>"
		if i < len(wl) {
			a = wl[i]
		}
		if i < len(gl) {
			b = gl[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: want %q, got %q (%d vs %d bytes)", i+1, cut(a, 120), cut(b, 120), len(w), len(g))
		}
	}
	return "equal"
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func fnvOf(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

var allowedTools = map[string]bool{"go": true, "gcc": true, "cc": true, "cpp": true, "clang": true, "vtcpp": true, "pkg-config": true}

// transcript executes a host tool for real, once, and caches what it said.
func (s *Sim) transcript(sl *Slot, args []string) []byte {
	dir, path, argv := args[0], args[1], args[2:]
	key := strings.ReplaceAll(strings.Join(args, "\x00"), sl.root, "<root>")
	s.mu.Lock()
	b, ok := s.trans[key]
	s.mu.Unlock()
	if ok {
		return b
	}
	if !allowedTools[filepath.Base(path)] {
		return []byte("127\n0\n")
	}
	var stdout, stderr bytes.Buffer
	c := exec.Command(path)
	c.Args = argv
	c.Dir = dir
	if c.Dir == "" {
		c.Dir = sl.root
	}
	c.Env = append([]string{"PWD=" + c.Dir}, s.childEnv(sl)...)
	c.Stdout, c.Stderr = &stdout, &stderr
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: simUID, Gid: simUID}}
	err := c.Run()
	code := 0
	if err != nil {
		code = 1
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
			code = ee.ExitCode()
		}
	}
	out := strings.ReplaceAll(stdout.String(), s.real, s.goroot)
	// kept with a place holder for the slot (all slot names are equally long)
	b = []byte(strings.ReplaceAll(fmt.Sprintf("%d\n%d\n%s%s", code, len(out), out, stderr.String()), sl.root, "<root>"))
	s.mu.Lock()
	s.trans[key] = b
	s.mu.Unlock()
	return b
}

func (s *Sim) childEnv(sl *Slot) []string {
	return []string{"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + sl.path("home"), "GOROOT=" + s.real, "GOFLAGS=", "GOTOOLCHAIN=local", "GOPROXY=off", "GOCACHE=" + sl.path("home/gocache"), "LC_ALL=C"}
}

// run executes one simulated run of the tool on a prepared slot.
func (s *Sim) run(sl *Slot, st Step) (*RunResult, error) {
	for try := 0; ; try++ {
		var before Tree
		if try == 0 {
			before = snapshotRaw(sl)
		} else {
			before = nil
		}
		r, err := s.run1(sl, st)
		if err != nil {
			return nil, err
		}
		need := sl.path("ex/need")
		b, err := os.ReadFile(need)
		if err != nil {
			if r.Code == 96 {
				return nil, fmt.Errorf("%w: transcript loop", errInfra)
			}
			return r, nil
		}
		if try > 20 {
			return nil, fmt.Errorf("%w: too many host tool calls", errInfra)
		}
		os.Remove(need)
		for _, call := range strings.Split(strings.TrimSuffix(string(b), "\x01"), "\x01") {
			args := strings.Split(call, "\x00")
			data := s.transcript(sl, args)
			data = []byte(strings.ReplaceAll(string(data), "<root>", sl.root))
			name := strconv.FormatUint(fnvOf(args...), 16)
			if err := os.WriteFile(sl.path("ex/"+name), data, 0644); err != nil {
				return nil, err
			}
		}
		_ = before
		s.restore(sl)
	}
}

// the state before a run is kept so that a run that stopped for want of a
// host tool transcript can start over
func snapshotRaw(sl *Slot) Tree {
	os.RemoveAll(sl.path("save"))
	if err := copyTree(sl.path("out"), sl.path("save")); err != nil {
		panic(err)
	}
	return nil
}

func (s *Sim) restore(sl *Slot) {
	os.RemoveAll(sl.path("out"))
	if err := copyTree(sl.path("save"), sl.path("out")); err != nil {
		panic(err)
	}
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		info, err := d.Info()
		if err != nil {
			return err
		}
		switch {
		case d.IsDir():
			if err := os.MkdirAll(q, 0755); err != nil {
				return err
			}
			os.Chmod(q, info.Mode().Perm())
		case info.Mode()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			if err := os.Symlink(l, q); err != nil {
				return err
			}
		default:
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if err := os.WriteFile(q, b, 0644); err != nil {
				return err
			}
			os.Chmod(q, info.Mode().Perm())
		}
		return os.Lchown(q, simUID, simUID)
	})
}

func (s *Sim) run1(sl *Slot, st Step) (*RunResult, error) {
	page := sl.path("page")
	os.Remove(page)
	f, err := os.Create(page)
	if err != nil {
		return nil, err
	}
	f.Truncate(pageSize)
	f.Close()
	os.Chown(page, simUID, simUID)
	cwd := sl.root
	if st.Cwd != "" {
		cwd = sl.path(st.Cwd)
	}
	var args []string
	for _, a := range st.Args {
		args = append(args, strings.ReplaceAll(a, "<root>", sl.root))
	}
	tool := s.tool
	if st.Params.Alt && s.alt != "" {
		tool = s.alt
	}
	var env []string
	for _, e := range st.Env {
		env = append(env, strings.ReplaceAll(e, "<root>", sl.root))
	}
	if st.Tool == "shape" {
		b := s.shape(sl, st.shape)
		if b.err != nil {
			return nil, b.err
		}
		if b.problem != "" {
			return &RunResult{Problem: b.problem, Hash: fnvOf(b.problem)}, nil
		}
		tool = b.path
		env = append(env, "VT="+st.VT, "GODEBUG=asyncpreemptoff=1,gcstoptheworld=2,clobberfree=1")
	}
	if st.Tool == "xl" {
		tool = buildDir + "/xltool"
		env = append(env, "VT="+st.VT)
	}
	c := exec.Command("/bin/bash", append([]string{"-c", `ulimit -t 90; ulimit -v 12000000; ulimit -c 0; exec "$0" "$@"`, tool}, args...)...)
	c.Dir = cwd
	c.Env = append([]string{
		"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + sl.path("home"), "PWD=" + cwd, "PKG_CONFIG_PATH=" + sl.path("in/pc"),
		"GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=3GiB", "GODEBUG=asyncpreemptoff=1", "GOROOT=" + s.goroot, "LC_ALL=C",
		"VSIM=" + st.Params.String(), "VSIMPAGE=" + page, "VSIMPLAN=" + st.Plan,
		"VSIMEXEC=" + sl.path("ex"), "VSIMEXECPLAN=" + st.ExecPlan,
		"VSIMCLASSES=sim:" + sl.path("ex") + ";out:" + sl.path("out") + ";in:" + sl.path("in"),
	}, env...)
	var stdout, stderr bytes.Buffer
	c.Stdout, c.Stderr = &stdout, &stderr
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: simUID, Gid: simUID}, Setpgid: true}
	t0 := time.Now()
	if err := c.Start(); err != nil {
		return nil, err
	}
	over := make(chan struct{})
	go killBlocked(c.Process.Pid, over)
	timer := time.AfterFunc(400*time.Second, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	werr := c.Wait()
	close(over)
	if !timer.Stop() {
		return nil, fmt.Errorf("%w: run exceeded the wall clock cap: %s %d VT=%s %s", errInfra, st.Tool, st.shape, st.VT, st.Params.String())
	}
	r := &RunResult{Wall: time.Since(t0), Stdout: stdout.String(), Stderr: stderr.String()}
	if werr != nil {
		ee, ok := werr.(*exec.ExitError)
		if !ok {
			return nil, werr
		}
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			r.Code, r.Signal = -1, ws.Signal().String()
		} else {
			r.Code = ws.ExitStatus()
		}
	}
	b, err := os.ReadFile(page)
	if err != nil {
		return nil, err
	}
	for i := range r.Page {
		r.Page[i] = binary.LittleEndian.Uint64(b[i*8:])
	}
	if r.Page[0] != 0x5653494d31 {
		return nil, fmt.Errorf("%w: simulation page missing (code %d): %s", errInfra, r.Code, cut(r.Stderr, 300))
	}
	off := r.Page[pgLogOff]
	if off > pageSize {
		off = pageSize
	}
	r.LogFull = off >= pageSize-1
	r.Log = string(b[logStart:off])
	if r.Code == 95 {
		return nil, fmt.Errorf("%w: bad simulation plan: %s", errInfra, r.Log)
	}
	if st.Tool == "shape" { // memory of C is not at fixed addresses
		r.Stderr = reAddr.ReplaceAllString(cut(r.Stderr, 4000), "0x")
	}
	r.Tree = snapshot(sl.path("out"))
	r.InTree = snapshot(sl.path("in"))
	r.Hash = fnvOf(string(b), r.Stdout, r.Stderr, fmt.Sprint(r.Code, r.Signal), treeString(r.Tree))
	if r.Signal == "killed" {
		r.Hash = fnvOf("killed") // a loop that reaches no scheduling point ends at the CPU limit
	}
	s.account(r, st)
	return r, nil
}

// killBlocked ends a process whose threads all sleep and use no processor time
// for ten seconds: simulated time makes sleeping unnecessary, so that it waits
// for something that never comes. (The Go runtime itself reports this only in
// programs without cgo.) A process that merely gets no processor is runnable.
func killBlocked(pid int, over chan struct{}) {
	quiet, last := 0, ""
	for {
		select {
		case <-over:
			return
		case <-time.After(500 * time.Millisecond):
		}
		now, asleep := "", true
		ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
		for _, t := range ts {
			b, err := os.ReadFile(t)
			if err != nil {
				asleep = false
				break
			}
			f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
			if len(f) < 14 || f[0] != "S" {
				asleep = false
				break
			}
			now += f[11] + "," + f[12] + " "
		}
		if len(ts) == 0 || !asleep || now != last {
			quiet, last = 0, now
			continue
		}
		if quiet++; quiet >= 20 {
			syscall.Kill(-pid, syscall.SIGKILL)
			return
		}
	}
}

func treeString(t Tree) string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s\x00%s\x00", k, t[k])
	}
	return b.String()
}

func (s *Sim) account(r *RunResult, st Step) {
	if r.Code == 96 {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	s.simNS += int64(r.Page[pgClockNow] - r.Page[pgClockStart])
	s.hashes[r.Page[pgSchedHash]*31+r.Page[pgSchedChoices]+r.Page[pgPreempts]<<32] = struct{}{}
	s.preempts += int64(r.Page[pgPreempts])
	s.yields += int64(r.Page[pgYields])
	s.choices += int64(r.Page[pgSchedChoices])
	s.mapYields += int64(r.Page[pgMapYields])
	s.clockJumps += int64(r.Page[pgClockJumps])
	s.idleJumps += int64(r.Page[pgIdleJumps])
	s.pauses += int64(r.Page[pgPauses])
	for _, l := range strings.Split(r.Log, "\n") {
		if i := strings.Index(l, " FAULT="); i >= 0 {
			f := strings.Fields(l)
			if len(f) > 5 {
				p := strings.Split(f[4], ":")
				e := ""
				for _, x := range f {
					if strings.HasPrefix(x, "e=") {
						n, _ := strconv.Atoi(x[2:])
						e = ":" + strings.ReplaceAll(syscall.Errno(n).Error(), " ", "_")
					}
				}
				s.faults[p[0]+":"+p[1]+":"+l[i+7:]+e]++
			}
		} else if strings.HasPrefix(l, "EXEC ") {
			if i := strings.LastIndex(l, "fault="); i >= 0 && l[i+6:] != "" {
				s.faults["exec:"+strings.TrimRight(l[i+6:], "0123456789")]++
			}
		}
	}
}

// ops parses the operation log of a run.
func (r *RunResult) ops() []Op {
	var out []Op
	for _, l := range strings.Split(r.Log, "\n") {
		if !strings.HasPrefix(l, "OP ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 8 {
			continue
		}
		var o Op
		o.Seq, _ = strconv.Atoi(f[1])
		o.T, _ = strconv.ParseInt(f[2][1:], 10, 64)
		p := strings.Split(f[4], ":")
		o.Op, o.Class = p[0], p[1]
		o.K, _ = strconv.Atoi(p[2])
		o.Path = f[5]
		for _, x := range f[6:] {
			switch {
			case strings.HasPrefix(x, "n="):
				o.N, _ = strconv.Atoi(x[2:])
			case strings.HasPrefix(x, "r="):
				o.R, _ = strconv.Atoi(x[2:])
			case strings.HasPrefix(x, "e="):
				o.Errno, _ = strconv.Atoi(x[2:])
			case strings.HasPrefix(x, "FAULT="):
				o.Fault = x[6:]
			}
		}
		out = append(out, o)
	}
	return out
}

func (r *RunResult) execs() []string {
	var out []string
	for _, l := range strings.Split(r.Log, "\n") {
		if strings.HasPrefix(l, "EXEC ") {
			out = append(out, l)
		}
	}
	return out
}

// play executes a history from scratch on the slot; one result per run step.
func (s *Sim) play(sl *Slot, h History) ([]*RunResult, error) {
	if err := s.setup(sl, h.Files); err != nil {
		return nil, fmt.Errorf("%w: %v", errInfra, err)
	}
	var out []*RunResult
	for _, st := range h.Steps {
		switch st.Kind {
		case "run":
			r, err := s.run(sl, st)
			if err != nil {
				return nil, err
			}
			out = append(out, r)
		case "write":
			if err := sl.write(st.Path, st.Data); err != nil {
				return nil, fmt.Errorf("%w: %v", errInfra, err)
			}
		case "remove":
			os.RemoveAll(sl.path(st.Path))
		case "mkdir":
			os.MkdirAll(sl.path(st.Path), 0755)
			os.Chown(sl.path(st.Path), simUID, simUID)
		case "truncate":
			os.Truncate(sl.path(st.Path), int64(st.N))
		case "trim", "zero":
			// lost or zeroed tail of a file that may not exist
			if b, err := os.ReadFile(sl.path(st.Path)); err == nil {
				n := min(st.N, len(b))
				if st.Kind == "trim" {
					b = b[:n]
				} else {
					for i := n; i < len(b); i++ {
						b[i] = 0
					}
				}
				os.WriteFile(sl.path(st.Path), b, 0644)
			}
		case "grow": // an older, longer version of a file that may not exist
			if b, err := os.ReadFile(sl.path(st.Path)); err == nil {
				os.WriteFile(sl.path(st.Path), append(b, st.Data...), 0644)
			}
		case "chmod":
			os.Chmod(sl.path(st.Path), fs.FileMode(st.Mode))
		case "symlink":
			os.Symlink(strings.ReplaceAll(st.Data, "<root>", sl.root), sl.path(st.Path))
		default:
			return nil, fmt.Errorf("%w: unknown step %s", errInfra, st.Kind)
		}
	}
	return out, nil
}
