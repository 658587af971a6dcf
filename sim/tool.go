package main

import (
	"fmt"
	"math/rand"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Checks of the tool itself (P01..P09): the whole program runs in one
// simulated process; only host tools are replaced, by recorded transcripts.

var toolReal = []string{"c-for-go main, process, parser, translator, generator (unmodified, from /repo)", "modernc.org/cc C front end", "golang.org/x/tools/imports", "yaml", "pkg-config reader", "Go runtime scheduler, channels, maps, os and syscall layers (instrumented)", "the file system below the scratch directory"}
var toolStub = []string{"host C compiler and `go env`: recorded transcripts of the real tools, with injected failures", "wall and monotonic clock: simulated", "random source of the runtime: seeded", "GOROOT of the import resolver: a cut-down copy with the packages generated code can name"}

var toolAssume = []string{
	"one P: goroutines interleave at scheduling points, map writes, locks, channel and wait-group operations, system calls and forced preemptions, not within single machine instructions",
	"inputs come from the seeded grammar of sim/gen.go",
}

func filesOf(in *Input) map[string]string {
	f := map[string]string{}
	for k, v := range in.Files {
		f["in/"+k] = v
	}
	return f
}

func runStep(args []string, p Params) Step { return Step{Kind: "run", Args: args, Params: p} }

func (x *Explorer) input(seed int64, o genOpt) *Input {
	in := genInput(seed, o)
	x.inputs.Add(1)
	x.mu.Lock()
	for _, f := range in.Feat {
		x.feats[f]++
	}
	x.mu.Unlock()
	return in
}

func exitText(r *RunResult) string {
	if r.Signal != "" {
		return "killed by " + r.Signal
	}
	return fmt.Sprintf("exit %d", r.Code)
}

// abnormal describes a run that did not end by itself with a plain status.
func abnormal(r *RunResult) string {
	switch {
	case r.Code == 97:
		return ""
	case r.Code == 98:
		return "hang: the run exceeded its work or simulated time bound in " + where(r)
	case r.Signal != "":
		return "signal: killed by " + r.Signal + " (work bound or fatal signal)"
	case strings.Contains(r.Stderr, "all goroutines are asleep - deadlock"):
		return "deadlock: " + cut(r.Stderr, 400)
	case strings.Contains(r.Stderr, "fatal error:"):
		return "fatal: " + crashText(from(r.Stderr, "fatal error:"))
	case strings.Contains(r.Stderr, "panic:") && strings.Contains(r.Stderr, "goroutine "):
		return "panic: " + crashText(from(r.Stderr, "panic:"))
	case r.Code > 2 && r.Code < 95, r.Code > 98:
		return fmt.Sprintf("status: unexpected exit status %d", r.Code)
	}
	return ""
}

// where names the innermost functions outside the runtime and the standard
// library at the point the run was stopped.
func where(r *RunResult) string {
	i := strings.LastIndex(r.Log, "WHERE ")
	if i < 0 {
		return "unknown place"
	}
	l, _, _ := strings.Cut(r.Log[i+6:], "\n")
	return stackText(strings.Fields(l))
}

// stackText keeps the frames outside the runtime and the standard library.
func stackText(fs []string) string {
	var out []string
	for _, f := range fs {
		if first, _, _ := strings.Cut(f, "/"); strings.Contains(first, ".") && strings.Contains(f, "/") || strings.HasPrefix(f, "main.") {
			if f = strings.TrimPrefix(f, "github.com/xlab/c-for-go/"); len(out) == 0 || out[len(out)-1] != f {
				out = append(out, f)
			}
		}
	}
	if len(out) > 12 {
		out = append(append(out[:5:5], "..."), out[len(out)-5:]...)
	}
	return strings.Join(out, " < ")
}

// crashText is the message of a panic or fatal error and where it arose,
// without addresses and goroutine numbers.
func crashText(s string) string {
	msg, rest, _ := strings.Cut(s, "\n")
	var fs []string
	for _, l := range strings.Split(rest, "\n") {
		if l == "" && len(fs) > 0 {
			break
		}
		if i := strings.LastIndex(l, "("); i > 0 && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "goroutine ") {
			fs = append(fs, l[:i])
		}
	}
	return cut(msg, 200) + " in " + stackText(fs)
}

func from(s, sub string) string {
	if i := strings.Index(s, sub); i >= 0 {
		return s[i:]
	}
	return s
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return cut(strings.Join(l, " | "), 400)
}

func success(r *RunResult) bool { return r.Code == 0 && r.Signal == "" }

// P01: exit status and output equal the reference, for every subject run.
func oracleSame(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	ref := refs[0][len(refs[0])-1]
	for i, r := range sub {
		if r.Code != ref.Code || r.Signal != ref.Signal {
			return fmt.Sprintf("status: run %d ends with %s, the reference with %s: %s", i, exitText(r), exitText(ref), cut(r.Stderr, 300))
		}
		if !success(ref) && cleanErr(r.Stderr) != cleanErr(ref.Stderr) {
			// which of several errors is reported is not promised
			continue
		}
		if !success(ref) {
			continue
		}
		if d := diffTrees(ref.Tree, r.Tree); d != "" {
			return fmt.Sprintf("bytes: run %d: %s", i, d)
		}
	}
	return ""
}

func cleanErr(s string) string { return s }

func p01(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{allowCC: true})
	c := Case{Oracle: "same", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	args := in.args("-nostamp")
	c.Alts = [][]Step{{runStep(args, calm())}}
	ref := x.play(sl, c.Files, c.Alts[0])
	if ref == nil {
		return
	}
	if ref[0].Code == 0 {
		x.count("inputs accepted by the tool", 1)
	}
	refs := [][]*RunResult{ref}
	r := rand.New(rand.NewSource(seed ^ 0x5eed))
	for k := 0; k < 5 && !x.done(); k++ {
		d := c
		d.Note = "perturbed schedule, map order and hash seed"
		d.Sub = []Step{runStep(args, perturb(r))}
		if k == 4 { // over the previous output
			d.Note = "second run over the output of the first, different schedules"
			d.Sub = append(d.Sub, runStep(args, perturb(r)))
		}
		x.try(sl, d, refs)
	}
}

// P02
var stampRx = regexp.MustCompile(`(Mon|Tue|Wed|Thu|Fri|Sat|Sun), \d{2} (Jan|Feb|Mar|Apr|May|Jun|Jul|Aug|Sep|Oct|Nov|Dec) \d{4} \d{2}:\d{2}:\d{2} ([A-Z]{1,5}|[+-]\d{2,4}|[+-]\d{2}:?\d{2})`)

// maskStamps replaces the stamp of every file and returns the stamps.
func maskStamps(t Tree) (Tree, map[string][]string) {
	out, stamps := Tree{}, map[string][]string{}
	for k, v := range t {
		if strings.HasPrefix(v, "f:") {
			stamps[k] = stampRx.FindAllString(v, -1)
			v = stampRx.ReplaceAllString(v, "<stamp>")
		}
		out[k] = v
	}
	return out, stamps
}

var tzNames = []string{"", "UTC", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "<+14>-14", "No/Such_Zone"}

func oracleClock(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	ref := refs[0][0]
	nostamp := false
	for _, a := range c.Sub[0].Args {
		nostamp = nostamp || a == "-nostamp"
	}
	for i, r := range sub {
		if r.Code != ref.Code || r.Signal != ref.Signal {
			return fmt.Sprintf("status: run %d ends with %s, the reference with %s: %s", i, exitText(r), exitText(ref), cut(r.Stderr, 300))
		}
		if !success(ref) {
			continue
		}
		if nostamp {
			if d := diffTrees(ref.Tree, r.Tree); d != "" {
				return fmt.Sprintf("nostamp: run %d: %s", i, d)
			}
			continue
		}
		rt, _ := maskStamps(ref.Tree)
		st, stamps := maskStamps(r.Tree)
		if d := diffTrees(rt, st); d != "" {
			return fmt.Sprintf("bytes: run %d, stamps set aside: %s", i, d)
		}
		lo := int64(r.Page[pgClockStart]) - int64(r.Page[pgSkewMin])
		hi := int64(r.Page[pgClockNow]) + int64(r.Page[pgSkewMax])
		for _, f := range r.Tree.files() {
			if len(stamps[f]) != 1 {
				return fmt.Sprintf("stamp: %s carries %d stamps, want exactly one", f, len(stamps[f]))
			}
			t, ok := parseStamp(stamps[f][0], c.Sub[0].Env)
			if !ok {
				return fmt.Sprintf("stamp: %s has a malformed stamp %q", f, stamps[f][0])
			}
			if t.Unix() < lo/1e9 || t.Unix() > hi/1e9 {
				return fmt.Sprintf("stamp: %s is stamped %q, outside the run (%s to %s)", f, stamps[f][0], time.Unix(0, lo).UTC().Format(time.RFC1123), time.Unix(0, hi).UTC().Format(time.RFC1123))
			}
		}
	}
	return ""
}

// parseStamp reads an RFC 1123 time in the zone the run was given.
func parseStamp(s string, env []string) (time.Time, bool) {
	loc := time.UTC
	for _, e := range env {
		if strings.HasPrefix(e, "TZ=") {
			if l, err := time.LoadLocation(e[3:]); err == nil {
				loc = l
			}
		}
	}
	i := strings.LastIndex(s, " ")
	t, err := time.ParseInLocation("Mon, 02 Jan 2006 15:04:05", s[:i], loc)
	if err != nil || t.Format("Mon, 02 Jan 2006 15:04:05") != s[:i] {
		return t, false
	}
	// an hour may be named twice when the clock falls back
	for _, d := range []time.Duration{0, time.Hour, -time.Hour, 30 * time.Minute, -30 * time.Minute} {
		if q := t.Add(d); q.Format(time.RFC1123) == s {
			return q, true
		}
	}
	return t, false
}

func p02(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{allowCC: true})
	r := rand.New(rand.NewSource(seed ^ 0xc10c))
	for _, extra := range [][]string{nil, {"-nostamp"}} {
		c := Case{Oracle: "clock", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
		args := in.args(extra...)
		c.Alts = [][]Step{{runStep(args, calm())}}
		ref := x.play(sl, c.Files, c.Alts[0])
		if ref == nil {
			return
		}
		n := 3
		if extra != nil {
			n = 2
		}
		for k := 0; k < n && !x.done(); k++ {
			p := perturb(r)
			p.Rand, p.Heap, p.Alt = 1, 0, false // only the clock and the schedule move here
			p.Time = uint64(r.Int63n(9e18))     // 1970 .. 2255
			if r.Intn(2) == 0 {
				p.SkewPM = 200
				p.SkewMax = []uint64{1, 3600, 86400 * 400, 86400 * 365 * 60}[r.Intn(4)]
				if p.Time < 61*31557600*1000000000 {
					p.Time += 61 * 31557600 * 1000000000
				} else if p.Time > 7e18 {
					p.Time -= 2e18
				}
			}
			d := c
			d.Note = "clock start, pace, jumps and zone drawn"
			st := runStep(args, p)
			if tz := tzNames[r.Intn(len(tzNames))]; tz != "" {
				st.Env = []string{"TZ=" + tz}
			}
			d.Sub = []Step{st}
			x.try(sl, d, [][]*RunResult{ref})
		}
	}
}

// P03
func oracleComplete(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	r := sub[len(sub)-1]
	if !success(r) {
		return ""
	}
	for _, d := range c.Pkgs {
		ps := checkPackage(r.Tree, d, validateSrc)
		if len(ps) > 0 {
			return fmt.Sprintf("incomplete: package %s: %s", d, cut(strings.Join(ps, "; "), 700))
		}
	}
	return ""
}

func p03(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{tidy: true, noCGO: -1})
	r := rand.New(rand.NewSource(seed ^ 0x9e1be5))
	c := Case{Oracle: "complete", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	for k := 0; k < 3 && !x.done(); k++ {
		d := c
		extra := []string{"-nostamp"}
		if k == 1 {
			extra = nil
		}
		d.Sub = []Step{runStep(in.args(extra...), perturb(r))}
		d.Note = "perturbed schedule"
		rs := x.try(sl, d, nil)
		if rs != nil && rs[0].Code != 0 {
			x.count("runs refused by the tool", 1)
		}
	}
}

// P04, P05: exit 0 only with the fault-free output.
func oracleFaultExit(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	r := sub[len(sub)-1]
	if !success(r) {
		return ""
	}
	best := ""
	for _, ref := range refs {
		q := ref[len(ref)-1]
		if !success(q) {
			best = "silent: exit 0 although the fault-free run ends with " + exitText(q)
			continue
		}
		d := diffTrees(q.Tree, r.Tree)
		if d == "" {
			return ""
		}
		if best == "" {
			best = "silent: exit 0 although a fault was injected and the output differs from the fault-free one: " + d
		}
	}
	return best + " | fault: " + faultLine(r)
}

func faultLine(r *RunResult) string {
	var out []string
	for _, l := range strings.Split(r.Log, "\n") {
		if i := strings.LastIndex(l, "FAULT="); i >= 0 && len(l) > i+6 {
			out = append(out, l)
		} else if i := strings.LastIndex(l, "fault="); i >= 0 && len(l) > i+6 && strings.HasPrefix(l, "EXEC") {
			out = append(out, l)
		}
	}
	if len(out) > 3 {
		out = out[:3]
	}
	return cut(strings.Join(out, " / "), 400)
}

var writeErrs = []string{"EIO", "ENOSPC", "EDQUOT", "EROFS", "ENOMEM"}
var openErrs = []string{"EACCES", "EMFILE", "ENFILE", "ENOSPC", "EROFS", "EIO", "ENOENT", "EDQUOT", "EPERM", "ELOOP", "ENAMETOOLONG", "ESTALE"}

type faultPlan struct{ plan, exec, note string }

// outPlans enumerates single faults at every mutating operation on the output.
func outPlans(ref *RunResult, r *rand.Rand, each int) []faultPlan {
	var out []faultPlan
	add := func(o Op, acts ...string) {
		if each > 0 && len(acts) > each {
			r.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
			acts = acts[:each]
		}
		for _, a := range acts {
			sticky := ""
			if r.Intn(8) == 0 && !strings.HasPrefix(a, "short") && a != "lose" {
				sticky = "+"
			}
			out = append(out, faultPlan{plan: fmt.Sprintf("%s:out:%d%s=%s", o.Op, o.K, sticky, a), note: a + " at " + o.Op + " " + path.Base(o.Path)})
		}
	}
	for _, o := range ref.ops() {
		if o.Class != "out" {
			continue
		}
		switch o.Op {
		case "mkdir":
			add(o, "EACCES", "ENOSPC", "EROFS", "EIO", "EDQUOT")
		case "open":
			if vsimWriteFlags(o.N) {
				add(o, append([]string{}, openErrs...)...)
			}
		case "write":
			acts := append([]string{}, writeErrs...)
			acts = append(acts, "short0", fmt.Sprintf("short%d", 1+r.Intn(o.N+1)), fmt.Sprintf("short%d", o.N-1))
			add(o, acts...)
		case "close":
			if o.N == 0 && writtenFile(ref, o.Path) {
				add(o, "EIO", "lose", "ENOSPC", "EDQUOT")
			}
		case "trunc", "chmod", "rename", "unlink", "sync", "link", "other":
			add(o, "EIO", "ENOSPC", "EPERM")
		}
	}
	return out
}

func vsimWriteFlags(n int) bool { return n&(1|2|0100|01000|02000) != 0 }

func writtenFile(r *RunResult, p string) bool {
	for _, o := range r.ops() {
		if o.Op == "write" && o.Class == "out" && o.Path == p {
			return true
		}
	}
	return false
}

func outBytes(r *RunResult) int {
	n := 0
	for _, o := range r.ops() {
		if o.Class == "out" && o.Op == "write" {
			n += o.N
		}
	}
	return n
}

func p04(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{small: seed%3 != 0, allowCC: true})
	c := Case{Oracle: "faultexit", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	args := in.args("-nostamp")
	r := rand.New(rand.NewSource(seed ^ 0xfa17))
	base := calm()
	if seed%2 == 0 {
		base = perturb(r)
	}
	c.Alts = [][]Step{{runStep(args, base)}}
	ref := x.play(sl, c.Files, c.Alts[0])
	if ref == nil || ref[0].Code != 0 {
		return
	}
	refs := [][]*RunResult{ref}
	plans := outPlans(ref[0], r, 3)
	total := outBytes(ref[0])
	for k := 0; k < 4; k++ {
		n := r.Intn(total + 1)
		if k == 0 {
			n = total - 1
		}
		plans = append(plans, faultPlan{plan: fmt.Sprintf("budget:%d", n), note: "disk full after a number of bytes"})
	}
	// two faults in one run
	for k := 0; k < 4 && len(plans) > 2; k++ {
		a, b := plans[r.Intn(len(plans))], plans[r.Intn(len(plans))]
		plans = append(plans, faultPlan{plan: a.plan + ";" + b.plan, note: a.note + " and " + b.note})
	}
	r.Shuffle(len(plans), func(i, j int) { plans[i], plans[j] = plans[j], plans[i] })
	if x.tier != "thorough" && len(plans) > 30 {
		plans = plans[:30]
	}
	for _, p := range plans {
		if x.done() {
			return
		}
		d := c
		st := runStep(args, base)
		st.Plan = p.plan
		d.Sub = []Step{st}
		d.Note = p.note
		x.try(sl, d, refs)
	}
}

// P05
func inPlans(ref *RunResult, r *rand.Rand, files map[string]string) (out []faultPlan) {
	var errs = []string{"EIO", "EACCES", "EMFILE", "ENFILE", "ENOMEM", "ESTALE", "EPERM"}
	for _, o := range ref.ops() {
		if o.Class != "in" {
			continue
		}
		switch o.Op {
		case "open", "stat", "dents":
			for k := 0; k < 2; k++ {
				e := errs[r.Intn(len(errs))]
				out = append(out, faultPlan{plan: fmt.Sprintf("%s:in:%d=%s", o.Op, o.K, e), note: e + " at " + o.Op + " " + path.Base(o.Path)})
			}
		case "read":
			out = append(out, faultPlan{plan: fmt.Sprintf("read:in:%d=EIO", o.K), note: "EIO at read " + path.Base(o.Path)})
			if o.R > 1 {
				for j := 0; j < 2; j++ {
					n := 1 + r.Intn(o.R)
					if t := textOf(files, o.Path); j > 0 && n < len(t) {
						// the part that arrives ends with a line
						if q := strings.IndexByte(t[n:], '\n'); q >= 0 && n+q+1 < o.R {
							n += q + 1
						}
					}
					out = append(out, faultPlan{plan: fmt.Sprintf("read:in:%d=short%d", o.K, n), note: "short read of " + path.Base(o.Path)})
				}
			}
		case "close":
			if r.Intn(3) == 0 {
				out = append(out, faultPlan{plan: fmt.Sprintf("close:in:%d=EIO", o.K), note: "EIO at close " + path.Base(o.Path)})
			}
		}
	}
	for k := 0; k < 6; k++ {
		op := []string{"read", "open", "stat"}[r.Intn(3)]
		out = append(out, faultPlan{plan: fmt.Sprintf("%s:sys:%d=%s", op, r.Intn(60), errs[r.Intn(3)]), note: "fault at a system header or directory"})
	}
	for k, e := range ref.execs() {
		if strings.Contains(e, " -v ") {
			// the list of directories has an end that must arrive
			for j := 0; j < 3; j++ {
				out = append(out, faultPlan{exec: fmt.Sprintf("%d=cut%d", k, r.Intn(4000)), note: "host tool: answer cut short"})
			}
		}
		for _, a := range []string{"missing", "eagain", "fail", fmt.Sprintf("trunc%d", r.Intn(4000)), fmt.Sprintf("kill%d", r.Intn(15000)), fmt.Sprintf("slow%d", 1+r.Intn(5000))} {
			out = append(out, faultPlan{exec: fmt.Sprintf("%d=%s", k, a), note: "host tool: " + a})
		}
	}
	return
}

func textOf(files map[string]string, p string) string {
	for k, t := range files {
		if p == k || strings.HasSuffix(p, "/"+k) {
			return t
		}
	}
	return ""
}

func without(args []string, drop ...string) []string {
	var out []string
outer:
	for _, a := range args {
		for _, d := range drop {
			if a == d {
				continue outer
			}
		}
		out = append(out, a)
	}
	return out
}

// oracleInputFault: refs[0] is the fault-free run; the others, when present,
// the runs that do not use the external preprocessor or the library's
// pkg-config files; they count only when a warning was printed.
func oracleInputFault(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	r := sub[len(sub)-1]
	if !success(r) {
		return ""
	}
	for _, o := range r.ops() {
		// the working directory is no input; where it is not known the paths
		// in comments come out longer or shorter
		if o.Fault != "" && o.Class == "sys" && !strings.Contains(strings.TrimPrefix(o.Path, simRoot+"/"), "/") {
			return ""
		}
	}
	v := oracleFaultExit(c, refs[:1], sub)
	if v == "" {
		return ""
	}
	// a warning that the run without the fault does not print as well
	warned := false
	for _, l := range strings.Split(r.Stderr, "\n") {
		warned = warned || strings.Contains(l, "WARN") && !strings.Contains(refs[0][len(refs[0])-1].Stderr, l)
	}
	for k := 1; k < len(refs) && warned; k++ {
		if oracleFaultExit(c, refs[k:k+1], sub) == "" {
			return ""
		}
	}
	return v
}

// vtCPP stands for the user's preprocessor: the host's, with four macros of
// its own spread over the output and one more directory to search.
const vtCPP = `#!/bin/sh
case "$1" in
-dM) cpp "$@" | awk '{print} NR%80==5 && k<4 {printf "#define VT_HOST_%d 1\n", k; k++}';;
-v) cpp "$@" 2>&1 | awk '{print} /search starts here/ && /</ {print " <root>/in/hostinc"}' >&2;;
*) cpp "$@";;
esac
`

func p05(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{small: seed%3 != 0, allowCC: true, pkgconf: seed%3 == 1, confDir: seed%4 == 3, oldHost: true})
	for i, m := range in.Manifests {
		// a second configuration in the directory, which is not the one to use
		for _, f := range sortedNames(in.Files) {
			if d, ok := strings.CutSuffix(f, "/c-for-go.yaml"); ok && d == m {
				if old := strings.Replace(in.Files[f], `"transform": "export"`, `"transform": "upper"`, 1); old != in.Files[f] {
					in.Files[d+"/"+[]string{"c-for-go.yml", d + ".yaml", d + ".yml"}[i%3]] = old
					x.count("directories with two configurations", 1)
				}
			}
		}
	}
	pc := false
	for _, f := range []string{"vt", "qz"} {
		// a library whose header has an older namesake beside the manifest
		h := f + "_pc.h"
		if m := in.Manifests[0]; len(in.Manifests) == 1 && in.Files["inc_"+f+"/"+h] != "" && in.Files[m] != "" && !strings.Contains(m, "/") {
			in.moveManifest(0, "own/")
			in.Files["own/"+h] = "typedef unsigned char " + f + "_pcnum;\nint " + f + "_pcold(" + f + "_pcnum a);\n"
			in.Files["own/"+f+"_a.h"] = "int " + f + "_shadow(int a);\n"
			pc = true
			x.count("inputs with a library found through pkg-config that has a namesake", 1)
		}
	}
	if seed%2 == 0 && !strings.Contains(strings.Join(in.Args, " "), "-cc") {
		in.Args = append(in.Args, []string{"-ccdefs", "-ccincl"}[seed/2%2])
	}
	var env []string
	if strings.Contains(strings.Join(in.Args, " "), "-cc") && seed%3 != 0 {
		// a preprocessor of the user's own, which knows more than the compiler
		env = []string{"CPP=<root>/in/bin/vtcpp"}
		in.Files["bin/vtcpp"] = vtCPP
		in.Files["hostinc/vt_host.h"] = "#define VT_HOST_H 1\ntypedef unsigned short vt_hostnum;\n"
		var w strings.Builder
		for k := 0; k < 4; k++ {
			fmt.Fprintf(&w, "#ifdef VT_HOST_%d\nint vt_hostfn%d(int a);\n#else\nlong vt_nohost%d(long a);\n#endif\n", k, k, k)
		}
		if strings.Contains(strings.Join(in.Args, " "), "-ccincl") {
			// the directories of the manifest, searched last, hold an older one
			in.Files["hostold/vt_host.h"] = "#define VT_HOST_H 1\ntypedef unsigned int vt_hostnum;\nint vt_hostold(vt_hostnum a);\n"
			w.WriteString("#include <vt_host.h>\nint vt_hostinc(int a);\n")
			x.count("inputs with a header of the host that has a namesake", 1)
		}
		h := "vt_a.h"
		if _, ok := in.Files[h]; !ok {
			h = "hdr_vt/vt_a.h"
		}
		in.Files[h] += w.String()
	}
	c := Case{Oracle: "inputfault", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	args := in.args("-nostamp")
	runStep := func(args []string, p Params) Step {
		st := runStep(args, p)
		st.Env = env
		return st
	}
	r := rand.New(rand.NewSource(seed ^ 0x1afa))
	base := calm()
	if seed%4 == 0 {
		base = perturb(r)
	}
	c.Alts = [][]Step{{runStep(args, base)}}
	ref := x.play(sl, c.Files, c.Alts[0])
	if ref == nil || ref[0].Code != 0 {
		return
	}
	refs := [][]*RunResult{ref}
	if plain := without(args, "-ccdefs", "-ccincl"); len(plain) != len(args) {
		alt := []Step{runStep(plain, base)}
		ar := x.play(sl, c.Files, alt)
		if ar == nil {
			return
		}
		c.Alts = append(c.Alts, alt)
		refs = append(refs, ar)
	}
	for k := len(c.Alts) - 1; k >= 0 && pc; k-- {
		alt := append([]Step{{Kind: "remove", Path: "in/pc"}}, c.Alts[k]...)
		ar := x.play(sl, c.Files, alt)
		if ar == nil {
			return
		}
		c.Alts = append(c.Alts, alt)
		refs = append(refs, ar)
	}
	plans := inPlans(ref[0], r, c.Files)
	for k := 0; k < 4 && len(plans) > 2; k++ {
		a, b := plans[r.Intn(len(plans))], plans[r.Intn(len(plans))]
		if a.plan != "" && b.plan != "" {
			plans = append(plans, faultPlan{plan: a.plan + ";" + b.plan, note: a.note + " and " + b.note})
		}
	}
	r.Shuffle(len(plans), func(i, j int) { plans[i], plans[j] = plans[j], plans[i] })
	// faults of the C tools and of reads come first: they are few beside the
	// calls of the import fixer
	first := func(p faultPlan) bool {
		if p.exec == "" {
			return strings.HasPrefix(p.plan, "read:in:") || strings.Contains(p.note, ".pc")
		}
		for k, e := range ref[0].execs() {
			if strings.HasPrefix(p.exec, strconv.Itoa(k)+"=") {
				return !strings.Contains(e, "go env") && !strings.Contains(e, "go list") && !strings.Contains(e, "go version")
			}
		}
		return false
	}
	sort.SliceStable(plans, func(i, j int) bool { return first(plans[i]) && !first(plans[j]) })
	sort.SliceStable(plans, func(i, j int) bool {
		return strings.Contains(plans[i].note, ".pc") && !strings.Contains(plans[j].note, ".pc")
	})
	if x.tier != "thorough" && len(plans) > 48 {
		// half of the budget to each sort
		n := 0
		for n < len(plans) && first(plans[n]) {
			n++
		}
		if n > 24 {
			n = 24
		}
		plans = append(plans[:n:n], plans[len(plans)-(48-n):]...)
	}
	for _, p := range plans {
		if x.done() {
			return
		}
		d := c
		st := runStep(args, base)
		st.Plan, st.ExecPlan = p.plan, p.exec
		d.Sub = []Step{st}
		d.Note = p.note
		x.try(sl, d, refs)
	}
}

// P06
func oracleRecover(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	ref := refs[0][len(refs[0])-1]
	r := sub[len(sub)-1]
	if !success(ref) {
		return ""
	}
	if !success(r) {
		return fmt.Sprintf("status: the repeated run ends with %s: %s", exitText(r), cut(r.Stderr, 300))
	}
	if d := diffTrees(ref.Tree, r.Tree); d != "" {
		return "recover: after the repeated run " + d
	}
	return ""
}

func p06(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{small: seed%3 != 0})
	c := Case{Oracle: "recover", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	args := in.args("-nostamp")
	r := rand.New(rand.NewSource(seed ^ 0xc7a5))
	c.Alts = [][]Step{{runStep(args, calm())}}
	ref := x.play(sl, c.Files, c.Alts[0])
	if ref == nil || ref[0].Code != 0 {
		return
	}
	refs := [][]*RunResult{ref}
	crash := func() (Step, string) {
		p := perturb(r)
		// crash points of this very schedule
		probe := x.play(sl, c.Files, []Step{runStep(args, p)})
		if probe == nil {
			return Step{}, ""
		}
		var ops []Op
		for _, o := range probe[0].ops() {
			if o.Class == "out" {
				ops = append(ops, o)
			}
		}
		if len(ops) == 0 {
			return Step{}, ""
		}
		o := ops[r.Intn(len(ops))]
		for k := 0; k < 3 && o.Op != "write"; k++ {
			o = ops[r.Intn(len(ops))]
		}
		act := "crash"
		switch {
		case o.Op == "write" && r.Intn(3) > 0:
			act = fmt.Sprintf("torn%d", r.Intn(o.N+1))
		case r.Intn(3) == 0:
			act = "crashafter"
		}
		st := runStep(args, p)
		st.Plan = fmt.Sprintf("%s:out:%d=%s", o.Op, o.K, act)
		return st, act + " at " + o.Op + " " + path.Base(o.Path)
	}
	n := 6
	if x.tier == "thorough" {
		n = 30
	}
	for k := 0; k < n && !x.done(); k++ {
		d := c
		d.Sub = nil
		var notes []string
		for j, m := 0, 1+r.Intn(2); j < m; j++ {
			st, note := crash()
			if st.Kind == "" {
				return
			}
			d.Sub = append(d.Sub, st)
			notes = append(notes, note)
		}
		d.Sub = append(d.Sub, damage(r, ref[0].Tree, &notes)...)
		d.Sub = append(d.Sub, runStep(args, perturb(r)))
		d.Note = strings.Join(notes, ", ")
		x.try(sl, d, refs)
	}
	// damage to a complete output: what a crash leaves when data was not on disk
	for k := 0; k < n/2 && !x.done(); k++ {
		d := c
		var notes []string
		d.Sub = []Step{runStep(args, perturb(r))}
		for len(notes) == 0 {
			d.Sub = append(d.Sub, damage(r, ref[0].Tree, &notes)...)
		}
		d.Sub = append(d.Sub, runStep(args, perturb(r)))
		d.Note = strings.Join(notes, ", ")
		x.try(sl, d, refs)
	}
}

// damage draws what a power loss does to files whose data was never synced.
func damage(r *rand.Rand, t Tree, notes *[]string) []Step {
	var out []Step
	for _, f := range t.files() {
		if r.Intn(3) > 0 {
			continue
		}
		p := "out/" + f
		n := len(t[f]) - 2
		switch r.Intn(6) {
		case 4, 5: // an earlier version, longer than this one
			junk := "\n// " + strings.Repeat("stale ", 1+r.Intn(40)) + "\n"
			if r.Intn(2) == 0 {
				junk = t[f][2:]
			}
			out = append(out, Step{Kind: "grow", Path: p, Data: junk})
			*notes = append(*notes, "longer "+path.Base(f))
		case 0:
			out = append(out, Step{Kind: "remove", Path: p})
			*notes = append(*notes, "lost "+path.Base(f))
		case 1:
			out = append(out, Step{Kind: "trim", Path: p, N: 0})
			*notes = append(*notes, "empty "+path.Base(f))
		case 2:
			out = append(out, Step{Kind: "trim", Path: p, N: r.Intn(n + 1)})
			*notes = append(*notes, "cut "+path.Base(f))
		case 3:
			out = append(out, Step{Kind: "zero", Path: p, N: r.Intn(n + 1)})
			*notes = append(*notes, "zeroed tail of "+path.Base(f))
		}
	}
	return out
}

// P07
func oracleConfined(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	r := sub[len(sub)-1]
	for _, q := range sub {
		for _, l := range strings.Split(q.Log, "\n") {
			if strings.HasPrefix(l, "ESCAPE ") {
				return "escape: " + l
			}
		}
		for _, o := range q.ops() {
			if o.Class == "in" && (o.Op == "write" || o.Op == "mkdir" || o.Op == "unlink" || o.Op == "rename" || o.Op == "trunc" || o.Op == "chmod" || o.Op == "link" || o.Op == "other" || o.Op == "open" && vsimWriteFlags(o.N)) {
				return fmt.Sprintf("input: %s on %s", o.Op, o.Path)
			}
			if o.Class == "out" && (o.Op == "chmod" || o.Op == "link" || o.Op == "other") {
				// a directory on the way to a package, or one that was there before
				p, own := strings.TrimPrefix(strings.TrimPrefix(o.Path, "out"), "/"), false
				for _, d := range c.Pkgs {
					own = own || p == d || strings.HasPrefix(p, d+"/")
				}
				if !own {
					return fmt.Sprintf("foreign: %s on %s", o.Op, o.Path)
				}
			}
		}
	}
	for p, v := range c.Files {
		if strings.HasPrefix(p, "in/") {
			got, ok := r.InTree[p[3:]]
			if !ok {
				return "input: " + p + " was removed"
			}
			if strings.Contains(v, "<root>") {
				continue
			}
			if got != "f:"+v {
				return "input: " + p + " was changed"
			}
		}
		if strings.HasPrefix(p, "out/") {
			if got, ok := r.Tree[p[4:]]; !ok {
				return "foreign: " + p + " was removed"
			} else if got != "f:"+v {
				return "foreign: " + p + " was changed: " + diffText("f:"+v, got)
			}
		}
	}
	for p := range r.InTree {
		if _, ok := c.Files["in/"+p]; !ok && r.InTree[p] != "d" {
			return "input: in/" + p + " was created"
		}
	}
	allowed := map[string]bool{}
	for _, d := range c.Pkgs {
		for q := d; q != "."; q = path.Dir(q) {
			allowed[q] = true
		}
	}
	var keys []string
	for p := range r.Tree {
		keys = append(keys, p)
	}
	sort.Strings(keys)
	for _, p := range keys {
		if _, ok := c.Files["out/"+p]; ok {
			continue
		}
		if r.Tree[p] == "d" {
			if allowed[p] {
				continue
			}
			own := false
			for f := range c.Files {
				own = own || strings.HasPrefix(f, "out/"+p+"/")
			}
			if own {
				continue
			}
			return "outside: directory " + p + " was created"
		}
		ok := false
		for _, d := range c.Pkgs {
			ok = ok || path.Dir(p) == d
		}
		if !ok {
			return "outside: " + p + " was created"
		}
		// a successful run leaves nothing but what a clean run generates
		if last := refs[0][len(refs[0])-1]; success(r) && success(last) {
			if _, ok := last.Tree[p]; !ok {
				return "extra: " + p + " is not part of the generated package"
			}
		}
	}
	return ""
}

func p07(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{small: seed%3 != 0, allowCC: true})
	r := rand.New(rand.NewSource(seed ^ 0xc0f1))
	c := Case{Oracle: "confined", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	pkg := path.Base(in.Pkgs[0])
	foreign := map[string]string{
		"out/" + in.Pkgs[0] + "/manual.go":        "package " + pkg + "\n\n// Manual is hand written.\nfunc   Manual( ) int { return  1 }\n",
		"out/" + in.Pkgs[0] + "/manual_test.go":   "package " + pkg + "\n\nimport \"testing\"\n\nfunc TestManual(t *testing.T) {}\n",
		"out/" + in.Pkgs[0] + "/kept.go":          "// THE AUTOGENERATED LICENSE. ALL THE RIGHTS ARE RESERVED BY ROBOTS.\n\n// WARNING: This file has automatically been generated on Sat, 05 Aug 2023 10:11:12 UTC.\n// Code generated by https://git.io/c-for-go. DO NOT EDIT.\n\npackage " + pkg + "\n",
		"out/" + in.Pkgs[0] + "/kept.h":           "// WARNING: This file has automatically been generated on Sat, 05 Aug 2023 10:11:12 UTC.\n// Code generated by https://git.io/c-for-go. DO NOT EDIT.\n\n",
		"out/" + in.Pkgs[0] + "/helpers.c":        "int vt_manual(void) { return 1; }\n",
		"out/" + in.Pkgs[0] + "/local.h":          "#pragma once\n",
		"out/" + in.Pkgs[0] + "/README.md":        "notes\n",
		"out/" + in.Pkgs[0] + "/sub/cgo.go":       "package sub\n",
		"out/other/cgo_helpers.go":                "package other\n",
		"out/cgo_helpers.h":                       "/* mine */\n",
		"out/" + path.Dir(in.Pkgs[0]) + "/go.mod": "module example.org/x\n",
	}
	// what editors, backups and hand-written companions of generated files are called
	for _, g := range []string{"cgo_helpers.go", "cgo_helpers.c", "cgo_helpers.h", "types.go", "const.go", "unions.go", "doc.go", pkg + ".go"} {
		for _, f := range []string{g + ".orig", g + ".bak", g + ".tmp", g + ".new", g + ".old", g + "~", "." + g, "." + g + ".swp", "#" + g + "#", "_" + g, g + ".rej", g + ".lock", strings.Replace(g, ".", "_manual.", 1), strings.Replace(g, ".", "_linux.", 1)} {
			if r.Intn(6) == 0 {
				text := "kept by hand\n"
				if strings.HasSuffix(f, ".go") {
					text = "package " + pkg + "\n"
				} else if strings.HasSuffix(f, ".c") || strings.HasSuffix(f, ".h") {
					text = "/* kept by hand */\n"
				}
				c.Files["out/"+in.Pkgs[0]+"/"+f] = text
			}
		}
	}
	var fk []string
	for k := range foreign {
		fk = append(fk, k)
	}
	sort.Strings(fk)
	for _, k := range fk {
		if r.Intn(2) == 0 {
			c.Files[path.Clean(k)] = foreign[k]
		}
	}
	args := in.args([]string{"-nostamp"}[:r.Intn(2)]...)
	c.Alts = [][]Step{{runStep(args, calm())}}
	ref := x.play(sl, c.Files, c.Alts[0])
	if ref == nil {
		return
	}
	refs := [][]*RunResult{ref}
	var plans []faultPlan
	if ref[0].Code == 0 {
		plans = append(outPlans(ref[0], r, 1), inPlans(ref[0], r, c.Files)...)
		for _, o := range ref[0].ops() {
			if o.Class == "out" && r.Intn(2) == 0 {
				a := []string{"crash", "crashafter"}[r.Intn(2)]
				if o.Op == "write" {
					a = fmt.Sprintf("torn%d", r.Intn(o.N+1))
				}
				plans = append(plans, faultPlan{plan: fmt.Sprintf("%s:out:%d=%s", o.Op, o.K, a), note: a + " at " + o.Op + " " + path.Base(o.Path)})
			}
		}
		r.Shuffle(len(plans), func(i, j int) { plans[i], plans[j] = plans[j], plans[i] })
		n := 10
		if x.tier == "thorough" {
			n = 60
		}
		if len(plans) > n {
			plans = plans[:n]
		}
	}
	plans = append([]faultPlan{{note: "no fault"}}, plans...)
	for _, p := range plans {
		if x.done() {
			return
		}
		d := c
		prm := calm()
		if p.plan == "" || r.Intn(3) == 0 {
			prm = perturb(r)
		}
		st := runStep(args, prm)
		st.Plan, st.ExecPlan = p.plan, p.exec
		d.Sub = []Step{st}
		d.Note = p.note
		x.try(sl, d, refs)
	}
}

// P08
func oracleEnds(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	for i, r := range sub {
		if v := abnormal(r); v != "" {
			k, rest, _ := strings.Cut(v, ":")
			return fmt.Sprintf("%s: run %d:%s", k, i, rest)
		}
	}
	r := sub[len(sub)-1]
	if c.Note == "terminal" && len(refs) > 0 {
		ref := refs[0][len(refs[0])-1]
		if success(ref) && success(r) {
			if d := diffTrees(ref.Tree, r.Tree); d != "" {
				return "terminal: output files depend on the terminal: " + d
			}
		}
		if success(ref) != success(r) {
			return "terminal: " + exitText(r) + " instead of " + exitText(ref) + " when the terminal fails: " + cut(r.Stderr, 300)
		}
	}
	return ""
}

func p08(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{allowCC: true, small: seed%3 == 1, manifests: []int{0, 0, 2, 3, 1}[seed%5]})
	r := rand.New(rand.NewSource(seed ^ 0xdead))
	c := Case{Oracle: "ends", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	args := in.args("-nostamp")
	c.Alts = [][]Step{{runStep(args, calm())}}
	ref := x.play(sl, c.Files, c.Alts[0])
	if ref == nil {
		return
	}
	refs := [][]*RunResult{ref}
	if x.evals.Load()%1 == 0 {
		d := c
		d.Sub = c.Alts[0]
		d.Note = "reference"
		if v := oracleEnds(&d, nil, ref); v != "" {
			d.Violation = v
			d.Property = x.prop.id
			d.Slot = sl.k
			x.report(sl, d)
			return
		}
	}
	try := func(note string, st Step, files map[string]string) {
		if x.done() {
			return
		}
		d := c
		d.Note = note
		d.Sub = []Step{st}
		if files != nil {
			d.Files = files
			d.Alts = nil
		}
		x.try(sl, d, refs)
	}
	for k := 0; k < 3; k++ {
		try("schedule", runStep(args, perturb(r)), nil)
	}
	// terminal failures
	for k := 0; k < 3; k++ {
		st := runStep(args, perturb(r))
		st.Plan = fmt.Sprintf("write:std:%d%s=%s", r.Intn(4), []string{"", "+"}[r.Intn(2)], []string{"EIO", "ENOSPC", "EAGAIN", "short0", "short3"}[r.Intn(5)])
		if strings.Contains(st.Plan, "EAGAIN") {
			st.Plan = strings.Replace(st.Plan, "+", "", 1)
		}
		if strings.Contains(st.Plan, "short") {
			st.Plan = strings.Replace(st.Plan, "+", "", 1)
		}
		try("terminal", st, nil)
	}
	// failures that last: a full or read-only disk, something in the way
	if ref[0].Code == 0 {
		kinds := map[string]bool{}
		for _, o := range ref[0].ops() {
			if o.Class == "out" || o.Class == "in" {
				kinds[o.Op+":"+o.Class] = true
			}
		}
		var ks []string
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for k := 0; k < 5 && len(ks) > 0; k++ {
			kind := ks[(int(seed%1009)*5+k)%len(ks)]
			errs := []string{"EIO", "EACCES", "EPERM", "ESTALE"}
			switch kind {
			case "mkdir:out":
				errs = []string{"EACCES", "ENOSPC", "EROFS", "EIO", "EDQUOT"}
			case "open:out", "open:in":
				errs = openErrs
			case "write:out", "pwrite:out", "trunc:out":
				errs = writeErrs
			case "close:out":
				errs = []string{"EIO", "ENOSPC", "EDQUOT"}
			}
			st := runStep(args, perturb(r))
			st.Plan = fmt.Sprintf("%s:0+=%s", kind, errs[r.Intn(len(errs))])
			try("lasting fault: "+st.Plan, st, nil)
		}
		if len(in.Pkgs) > 0 {
			d := in.Pkgs[r.Intn(len(in.Pkgs))]
			f := map[string]string{}
			for n, v := range c.Files {
				f[n] = v
			}
			where := []string{"out/" + d, "out/" + d + "/" + path.Base(d) + ".go/x", "out/" + d + "/cgo_helpers.go/x", "out/" + d + "/doc.go/x", "out/" + d + "/types.go/x"}[r.Intn(5)]
			f[where] = "in the way"
			try("in the way: "+where, runStep(args, perturb(r)), f)
		}
	}
	// slow host tools and disk, faults anywhere
	if ref[0].Code == 0 {
		plans := append(outPlans(ref[0], r, 1), inPlans(ref[0], r, c.Files)...)
		r.Shuffle(len(plans), func(i, j int) { plans[i], plans[j] = plans[j], plans[i] })
		for k := 0; k < 8 && k < len(plans); k++ {
			st := runStep(args, perturb(r))
			st.Plan, st.ExecPlan = plans[k].plan, plans[k].exec
			try("fault: "+plans[k].note, st, nil)
		}
	}
	// damaged input: manifests, and headers that are missing or were replaced
	// by something that is no regular file
	for k := 0; k < 4; k++ {
		f := map[string]string{}
		for n, v := range c.Files {
			f[n] = v
		}
		var hs, ms []string
		for n := range f {
			if strings.HasSuffix(n, ".h") {
				hs = append(hs, n)
			} else {
				ms = append(ms, n)
			}
		}
		sort.Strings(hs)
		sort.Strings(ms)
		if len(ms) == 0 {
			break
		}
		n := ms[r.Intn(len(ms))]
		b := []byte(f[n])
		what := ""
		switch q := r.Intn(6); {
		case len(b) < 4 || q == 5 && len(hs) > 0:
			if len(hs) == 0 {
				continue
			}
			n = hs[r.Intn(len(hs))]
			delete(f, n)
			if r.Intn(2) == 0 {
				f[n+"/x"] = ""
			}
			try("damaged input: removed "+path.Base(n), runStep(args, perturb(r)), f)
			continue
		case q == 0:
			b = b[:r.Intn(len(b)+1)]
			what = "cut"
		case q == 1:
			i := r.Intn(len(b))
			j := i + r.Intn(len(b)-i)
			b = append(append([]byte{}, b[:i]...), b[j:]...)
			what = "hole in"
		case q == 2:
			for q := 0; q < 3; q++ {
				b[r.Intn(len(b))] = "{}[]:,-#\"\x00a0"[r.Intn(12)]
			}
			what = "changed bytes in"
		case q == 3:
			// values of another kind
			ls := strings.Split(string(b), "\n")
			i := r.Intn(len(ls))
			if k := strings.Index(ls[i], ": "); k > 0 {
				ls[i] = ls[i][:k+2] + []string{"null,", "7,", "\"\",", "[],", "{},", "[[]],", "{\"a\":null},", "-1,", "\"(\","}[r.Intn(9)]
			}
			b = []byte(strings.Join(ls, "\n"))
			what = "changed value in"
		default:
			ls := strings.SplitAfter(string(b), "\n")
			i, j := r.Intn(len(ls)), r.Intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
			b = []byte(strings.Join(ls, ""))
			what = "swapped lines of"
		}
		f[n] = string(b)
		try("damaged input: "+what+" "+path.Base(n), runStep(args, perturb(r)), f)
	}
}

// P09
func oracleJoint(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	r := sub[len(sub)-1]
	// refs[i] is manifest i alone
	bad := -1
	for i, ref := range refs {
		if !success(ref[0]) {
			bad = i
			break
		}
	}
	if bad < 0 {
		if !success(r) {
			return fmt.Sprintf("status: the joint run ends with %s, each manifest alone succeeds: %s", exitText(r), cut(r.Stderr, 300))
		}
	} else if success(r) {
		return fmt.Sprintf("status: the joint run exits 0 although manifest %d fails alone with %s", bad, exitText(refs[bad][0]))
	}
	for i, ref := range refs {
		if bad >= 0 && i >= bad {
			break
		}
		want, got := Tree{}, Tree{}
		for p, v := range ref[0].Tree {
			if strings.HasPrefix(p, c.Pkgs[i]+"/") {
				want[p] = v
			}
		}
		for p, v := range r.Tree {
			if strings.HasPrefix(p, c.Pkgs[i]+"/") {
				got[p] = v
			}
		}
		if d := diffTrees(want, got); d != "" {
			return fmt.Sprintf("joint: package %s (manifest %d of %d): %s", c.Pkgs[i], i+1, len(refs), d)
		}
	}
	// nothing of manifests after the failing one, nothing extra
	for p := range r.Tree {
		ok := false
		for i, d := range c.Pkgs {
			if bad >= 0 && i > bad {
				break
			}
			ok = ok || p == d || strings.HasPrefix(p, d+"/") || strings.HasPrefix(d, p+"/")
		}
		if !ok {
			return "extra: " + p + " belongs to no manifest processed before the failure"
		}
	}
	// order of first writes
	last := -1
	for _, o := range r.ops() {
		if o.Class != "out" || o.Op != "write" {
			continue
		}
		for i, d := range c.Pkgs {
			if strings.Contains(o.Path, "/out/"+d+"/") {
				if i < last {
					return fmt.Sprintf("order: package %s is written after package %s", d, c.Pkgs[last])
				}
				last = i
			}
		}
	}
	return ""
}

func sortedNames(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func p09(x *Explorer, sl *Slot, seed int64) {
	r := rand.New(rand.NewSource(seed ^ 0x901f7))
	in := x.input(seed, genOpt{manifests: 2 + int(seed%2), small: seed%2 == 0})
	// variants sharing headers with the first manifest under another package
	if r.Intn(2) == 0 {
		m := in.Manifests[0]
		src := in.Files[m]
		if src == "" { // found by directory
			return
		}
		base := path.Base(in.Pkgs[0])
		nm := in.variant(m, "twin"+base, r)
		if r.Intn(2) == 0 {
			nm = strings.Replace(nm, `"transform": "export"`, `"transform": "`+[]string{"title", "upper"}[r.Intn(2)]+`"`, 1)
		}
		if r.Intn(2) == 0 {
			nm = strings.ReplaceAll(nm, `"SafeStrings": true`, `"SafeStrings": false`)
		}
		in.Files["twin.yml"] = nm
		pos := r.Intn(len(in.Manifests) + 1)
		in.Manifests = append(in.Manifests[:pos:pos], append([]string{"twin.yml"}, in.Manifests[pos:]...)...)
		in.Pkgs = append(in.Pkgs[:pos:pos], append([]string{"twin" + base}, in.Pkgs[pos:]...)...)
	}
	if r.Intn(2) == 0 {
		// each manifest in a directory of its own, with a header of the same
		// name that is found through that directory
		for i, mf := range in.Manifests {
			if strings.Contains(mf, "/") || in.Files[mf] == "" {
				continue
			}
			d := fmt.Sprintf("own%d/", i)
			found := false
			for _, h := range sortedNames(in.Files) {
				const std = "#include <stddef.h>\n"
				if strings.HasSuffix(h, ".h") && strings.Contains(in.Files[mf], `"`+h+`"`) && strings.Contains(in.Files[h], std) {
					// a twin shares the header and finds its own directory's
					if !strings.Contains(in.Files[h], "vt_common.h") {
						in.Files[h] = strings.Replace(in.Files[h], std, std+"#include \"vt_common.h\"\n", 1)
					}
					found = true
					break
				}
			}
			if !found {
				continue
			}
			in.Files[d+"vt_common.h"] = fmt.Sprintf("#define VT_COMMON %d\ntypedef %s vt_common_t;\nint vt_common_fn%d(vt_common_t a);\n", i, []string{"int", "unsigned char", "double", "unsigned long"}[i%4], i)
			in.moveManifest(i, d)
			x.count("manifests in a directory of their own", 1)
		}
	}
	if r.Intn(3) == 0 {
		// a manifest that fails: its header is broken, missing or its manifest invalid
		pos := r.Intn(len(in.Manifests))
		pkg := in.Pkgs[pos]
		m := in.Manifests[pos]
		switch r.Intn(5) {
		case 3: // a rule that does not compile
			in.Files["broken.yml"] = "GENERATOR:\n  PackageName: " + pkg + "\nPARSER:\n  SourcesPaths: [broken.h]\nTRANSLATOR:\n  Rules:\n    global:\n      - {action: accept, from: \"(\"}\n"
			in.Files["broken.h"] = "int vt_x(int a);\n"
		case 4: // no package name
			in.Files["broken.yml"] = "GENERATOR:\n  PackageLicense: x\nPARSER:\n  SourcesPaths: [broken.h]\n"
			in.Files["broken.h"] = "int vt_x(int a);\n"
		case 0:
			in.Files["broken.yml"] = "GENERATOR:\n  PackageName: " + pkg + "\nPARSER:\n  SourcesPaths: [missing_header.h]\n"
		case 1:
			in.Files["broken.yml"] = "GENERATOR:\n  PackageName: " + pkg + "\n  - [\n"
		case 2:
			in.Files["broken.yml"] = "GENERATOR:\n  PackageName: " + pkg + "\nPARSER:\n  SourcesPaths: [broken.h]\n"
			in.Files["broken.h"] = "struct x { int a;\n"
		}
		_ = m
		in.Manifests[pos] = "broken.yml"
		x.count("joint runs with a failing manifest", 1)
	}
	c := Case{Oracle: "joint", InputSeed: seed, Files: filesOf(in), Pkgs: in.Pkgs}
	var refs [][]*RunResult
	for i := range in.Manifests {
		one := *in
		one.Manifests = in.Manifests[i : i+1]
		st := []Step{runStep(one.args("-nostamp"), calm())}
		rs := x.play(sl, c.Files, st)
		if rs == nil {
			return
		}
		c.Alts = append(c.Alts, st)
		refs = append(refs, rs)
	}
	for k := 0; k < 3 && !x.done(); k++ {
		d := c
		d.Sub = []Step{runStep(in.args("-nostamp"), perturb(r))}
		d.Note = fmt.Sprintf("%d manifests jointly", len(in.Manifests))
		x.try(sl, d, refs)
	}
	// a fault while a later package is written leaves the earlier ones complete
}

func init() {
	oracles["same"] = oracleSame
	oracles["clock"] = oracleClock
	oracles["complete"] = oracleComplete
	oracles["faultexit"] = oracleFaultExit
	oracles["inputfault"] = oracleInputFault
	oracles["recover"] = oracleRecover
	oracles["confined"] = oracleConfined
	oracles["ends"] = oracleEnds
	oracles["joint"] = oracleJoint
	add := func(id, level string, quick int, rule string, one func(*Explorer, *Slot, int64)) {
		props[id] = &Prop{id: id, level: level, quick: quick, quickS: 55, thorS: 1500, rule: rule, one: one, assume: toolAssume, real: toolReal, stub: toolStub}
	}
	add("P01", "exploration", 400, "A case is one random invocation (headers, manifest, flags) run under a seeded perturbed schedule, map order and hash seed, compared byte by byte with the calm run. Non-trivial: the schedule departs from first-in first-out or a preemption was forced; distinct by input seed, scheduler choice sequence and preemptions.", p01)
	add("P02", "exploration", 300, "A case is one random invocation under a drawn clock (start, pace, jumps, zone) and schedule, compared with the calm run after setting the stamp aside. Non-trivial and distinct as for schedules: input seed, choice sequence, preemptions, clock jumps.", p02)
	add("P03", "exploration", 500, "A case is one random tidy invocation under a perturbed schedule whose output is parsed, type-checked and cross-checked with its C side. Non-trivial: the schedule departs from first-in first-out; distinct by input seed and choice sequence.", p03)
	add("P04", "fault_enumeration", 120, "A case is one random invocation with one or two faults placed at operations on the output found in its fault-free run. Non-trivial: the fault fired; distinct by input seed and the faulted operations.", p04)
	add("P05", "fault_enumeration", 120, "A case is one random invocation with faults at reads of its inputs or at its host-tool calls. Non-trivial: the fault fired; distinct by input seed and faulted operations.", p05)
	add("P06", "fault_enumeration", 150, "A case is one or two runs crashed at operations on the output (optionally with a torn write), further loss of unsynced data, then a run to completion. Non-trivial: a crash or damage happened; distinct by input seed, crash points and damage.", p06)
	add("P07", "fault_enumeration", 120, "A case is one random invocation beside foreign files, with or without a fault or crash, whose every mutating operation and resulting trees are checked. Non-trivial: a fault fired or the schedule was perturbed; distinct by input seed, fault and choices.", p07)
	add("P08", "exploration", 150, "A case is one random invocation under a perturbed schedule, a terminal fault, an I/O or host-tool fault, or with damaged input; it has to end within its step and time bound without deadlock, panic or fatal error. Non-trivial: perturbed schedule or fault; distinct by input seed, choices and faults.", p08)
	add("P09", "exploration", 200, "A case is a joint run of two to four manifests under a perturbed schedule, compared with each manifest alone. Non-trivial: perturbed schedule; distinct by input seed and choices.", p09)
}
