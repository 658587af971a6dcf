package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

type edit struct {
	old, new string
	n        int // expected number of occurrences (0: at least one, regexp when re is set)
	re       bool
}

type patched struct {
	file  string // relative to GOROOT/src
	edits []edit
}

// stdPatches are textual edits of standard library files; each must apply
// exactly as stated or the overlay is refused.
func stdPatches() []patched {
	ps := []patched{
		{"runtime/rand.go", []edit{
			{old: "func bootstrapRand() uint64 {\n", new: "func bootstrapRand() uint64 {\n\tif vsim.on {\n\t\treturn vsimMix(&vsim.boot)\n\t}\n", n: 1},
			{old: "func mrandinit(mp *m) {\n", new: "func mrandinit(mp *m) {\n\tif vsim.on {\n\t\tmp.cheaprand = 1\n\t\tmp.cheaprand64 = 1\n\t\treturn\n\t}\n", n: 1},
			{old: "func rand() uint64 {\n", new: "func rand() uint64 {\n\tif vsim.on {\n\t\treturn vsimRand()\n\t}\n", n: 1},
			{old: "func bootstrapRandReseed() {\n", new: "func bootstrapRandReseed() {\n\tif vsim.on {\n\t\treturn\n\t}\n", n: 1},
		}},
		{"runtime/proc.go", []edit{
			{old: "\trandinit() // must run before mallocinit", new: "\tvsimInit()\n\trandinit() // must run before mallocinit", n: 1},
			{old: "\tif haveSysmon {\n\t\tsystemstack(func() {\n", new: "\tif haveSysmon && !vsim.on {\n\t\tsystemstack(func() {\n", n: 1},
			{old: "func runqget(pp *p) (gp *g, inheritTime bool) {\n", new: "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif vsim.on {\n\t\treturn vsimRunqget(pp), false\n\t}\n", n: 1},
			{old: "\t\t\tfaketime = when\n", new: "\t\t\tfaketime = when\n\t\t\tif vsim.on {\n\t\t\t\tvsim.page[vsIdleJumps]++\n\t\t\t\tvsimClockMoved()\n\t\t\t}\n", n: 1},
		}},
		{"runtime/select.go", []edit{
			{old: "\t\tj := cheaprandn(uint32(norder + 1))\n", new: "\t\tj := cheaprandn(uint32(norder + 1))\n\t\tif vsim.on {\n\t\t\tvsim.page[vsSelectDraws]++\n\t\t\tj = uint32(vsimMix(&vsim.sch) % uint64(norder+1))\n\t\t}\n", n: 1},
			{old: "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n", new: "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tif vsim.on {\n\t\tvsimTick()\n\t\tvsimYieldPoint(vsim.yieldPM)\n\t}\n", n: 1},
		}},
		{"runtime/chan.go", []edit{
			{old: "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", new: "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tif vsim.on {\n\t\tvsimTick()\n\t\tvsimYieldPoint(vsim.yieldPM)\n\t}\n", n: 1},
			{old: "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", new: "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tif vsim.on {\n\t\tvsimTick()\n\t\tvsimYieldPoint(vsim.yieldPM)\n\t}\n", n: 1},
			{old: "func closechan(c *hchan) {\n", new: "func closechan(c *hchan) {\n\tif vsim.on {\n\t\tvsimYieldPoint(vsim.yieldPM)\n\t}\n", n: 1},
		}},
		{"runtime/malloc.go", []edit{
			{old: "\t\t\t\tp = uintptr(i)<<40 | uintptrMask&(0x00c0<<32)\n", new: "\t\t\t\tp = uintptr(i)<<40 | uintptrMask&(0x00c0<<32) + vsim.heapShift\n"},
			{old: "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n", new: "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n\tif vsim.on {\n\t\tvsimTick()\n\t}\n", n: 1},
		}},
		{"internal/sync/mutex.go", []edit{
			{old: "func (m *Mutex) Lock() {\n", new: "func (m *Mutex) Lock() {\n\tvsimYield()\n", n: 1},
			{old: "\tnew := atomic.AddInt32(&m.state, -mutexLocked)\n", new: "\tnew := atomic.AddInt32(&m.state, -mutexLocked)\n\tvsimYield()\n", n: 1},
		}},
		{"sync/rwmutex.go", []edit{
			{old: "func (rw *RWMutex) RLock() {\n", new: "func (rw *RWMutex) RLock() {\n\tisync.VsimYield()\n", n: 1},
			{old: "func (rw *RWMutex) RUnlock() {\n", new: "func (rw *RWMutex) RUnlock() {\n\tisync.VsimYield()\n", n: 1},
			{old: "import (\n", new: "import (\n\tisync \"internal/sync\"\n", n: 1},
		}},
		{"sync/waitgroup.go", []edit{
			{old: "func (wg *WaitGroup) Add(delta int) {\n", new: "func (wg *WaitGroup) Add(delta int) {\n\tisync.VsimYield()\n", n: 1},
			{old: "func (wg *WaitGroup) Wait() {\n", new: "func (wg *WaitGroup) Wait() {\n\tisync.VsimYield()\n", n: 1},
			{old: "import (\n", new: "import (\n\tisync \"internal/sync\"\n", n: 1},
		}},
		{"internal/syscall/unix/copy_file_range_unix.go", []edit{
			{old: "(n int, err error) {\n", new: "(n int, err error) {\n\tif syscall.VsimActive() {\n\t\treturn 0, syscall.ENOSYS\n\t}\n", n: 1},
		}},
		{"os/exec/exec.go", []edit{
			{old: "func (c *Cmd) Start() error {\n", new: "func (c *Cmd) Start() error {\n\tif syscall.VsimActive() {\n\t\treturn c.vsimStart()\n\t}\n", n: 1},
			{old: "func (c *Cmd) Wait() error {\n", new: "func (c *Cmd) Wait() error {\n\tif c.vsimDone {\n\t\treturn c.vsimErr\n\t}\n", n: 1},
			{old: "\tstartCalled int32\n", new: "\tvsimDone bool\n\tvsimErr error\n\tstartCalled int32\n", n: 1},
		}},
	}
	ps = append(ps, patched{"internal/syscall/unix/getrandom.go", []edit{
		{old: "func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n", new: "func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n\tif syscall.VsimActive() {\n\t\tsyscall.VsimRandom(p)\n\t\treturn len(p), nil\n\t}\n", n: 1},
	}})
	var sys []edit
	for _, f := range []string{"openat", "write", "pwrite", "read", "Close", "Fsync", "Fdatasync", "Ftruncate", "Fchmod", "Fstat", "Getdents", "Mkdirat", "unlinkat", "fstatat", "fchmodat", "Truncate", "Renameat", "linkat", "symlinkat", "Fchownat", "utimensat", "Getpid", "Getppid"} {
		sys = append(sys, edit{old: "\nfunc " + f + "(", new: "\nfunc vreal_" + f + "(", n: 1})
	}
	ps = append(ps, patched{"syscall/zsyscall_linux_amd64.go", sys})
	for _, f := range []string{"map.go", "runtime.go", "runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"} {
		ps = append(ps, patched{"internal/runtime/maps/" + f, []edit{
			{old: "\tm.writing ^= 1 // toggle, see comment on writing\n", new: "\tm.writing ^= 1 // toggle, see comment on writing\n\tvsimYield()\n"},
		}})
	}
	return ps
}

var stdNew = map[string]string{
	"runtime/verif_sim.go":               "runtime_verif_sim.go",
	"runtime/time_fake.go":               "runtime_time_fake.go",
	"syscall/time_fake.go":               "syscall_time_fake.go",
	"syscall/verif_sim.go":               "syscall_verif_sim.go",
	"internal/runtime/maps/verif_sim.go": "maps_verif_sim.go",
	"internal/sync/verif_sim.go":         "isync_verif_sim.go",
	"os/exec/verif_sim.go":               "exec_verif_sim.go",
}

// writeOverlay builds the overlay JSON in dir and returns its path.
func writeOverlay(goroot, filesDir, dir string, extra map[string]string) (string, error) {
	rep := map[string]string{}
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	for _, p := range stdPatches() {
		src := filepath.Join(goroot, "src", p.file)
		b, err := os.ReadFile(src)
		if err != nil {
			return "", err
		}
		s := string(b)
		for _, e := range p.edits {
			var c int
			if e.re {
				rx := regexp.MustCompile(e.old)
				c = len(rx.FindAllStringIndex(s, -1))
				s = rx.ReplaceAllString(s, e.new)
			} else {
				c = strings.Count(s, e.old)
				s = strings.ReplaceAll(s, e.old, e.new)
			}
			if c == 0 || (e.n != 0 && c != e.n) {
				return "", fmt.Errorf("overlay edit of %s applies %d times (want %d): %q", p.file, c, e.n, e.old)
			}
		}
		out := filepath.Join(dir, strings.ReplaceAll(p.file, "/", "__"))
		if err := writeIfChanged(out, []byte(s)); err != nil {
			return "", err
		}
		rep[src] = out
	}
	for dst, f := range stdNew {
		rep[filepath.Join(goroot, "src", dst)] = filepath.Join(filesDir, f)
	}
	for k, v := range extra {
		rep[k] = v
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	out := filepath.Join(dir, "overlay.json")
	return out, writeIfChanged(out, j)
}

func writeIfChanged(path string, b []byte) error {
	if old, err := os.ReadFile(path); err == nil && string(old) == string(b) {
		return nil
	}
	return os.WriteFile(path, b, 0644)
}
