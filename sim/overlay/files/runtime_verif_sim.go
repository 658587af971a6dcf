// Simulation seam: overlaid into package runtime by /verif (never shipped).
// Everything here is inert unless the environment carries VSIM=...

package runtime

import (
	"internal/runtime/atomic"
	"internal/stringslite"
	"unsafe"
)

const (
	vsimPageSize = 1 << 20
	vsimLogStart = 4096
)

// page slots (uint64 each)
const (
	vsMagic = iota
	vsTicks
	vsSchedChoices
	vsSchedNonDefault
	vsSchedHash
	vsYields
	vsPreempts
	vsRandDraws
	vsClockNow
	vsClockStart
	vsClockJumps
	vsLogOff
	vsIdleJumps
	vsSelectDraws
	vsGCs
	vsReason
	vsMapYields
	vsMaxRunq
	vsSkewMin // |most negative| wall clock skew, ns
	vsSkewMax
	vsPauses
	vsFault0 = 32 // fault counters from here
)

type vsimStateT struct {
	on        bool
	rng       uint64
	boot      uint64
	sch       uint64
	clk       uint64
	countdown uint64
	interval  uint64
	advance   uint64 // max ns of simulated time per tick
	yieldPM   uint64 // yield probability at yield points, per 1024
	mapPM     uint64 // yield probability inside map writes, per 1024
	schedLim  uint64 // number of random scheduling choices, rest FIFO
	prioSeed  uint64
	prio      uint64 // choices for which drawn priorities last, 0: none
	skewPM    uint64 // wall clock jump probability per tick, per 1024
	skewMax   uint64 // seconds
	skew      int64  // ns
	pausePM   uint64 // probability per tick that the machine stands still, per 65536
	pauseMax  uint64 // seconds
	limit     int64  // simulated time limit, ns after start
	tickLimit uint64
	workLimit uint64
	work      uint64
	ending    bool
	start     int64
	heapShift uintptr
	page      *[vsimPageSize / 8]uint64
}

var vsim vsimStateT

func vsimMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func vsimRand() uint64 {
	s := &vsim.rng
	if gp := getg(); gp != gp.m.curg {
		s = &vsim.boot // scheduler context: not part of the program's stream
	} else if vsim.page != nil {
		vsim.page[vsRandDraws]++
	}
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func vsimEnvEarly(prefix string) (string, *byte) {
	n := int32(0)
	for argv_index(argv, argc+1+n) != nil {
		n++
	}
	for i := int32(0); i < n; i++ {
		p := argv_index(argv, argc+1+i)
		s := unsafe.String(p, findnull(p))
		if stringslite.HasPrefix(s, prefix) {
			return s[len(prefix):], (*byte)(unsafe.Add(unsafe.Pointer(p), len(prefix)))
		}
	}
	return "", nil
}

// vsimParam extracts key=NUMBER from "k=1,k2=3".
func vsimParam(s, key string, def uint64) uint64 {
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != ',' {
			i++
		}
		kv := s[:i]
		if i < len(s) {
			s = s[i+1:]
		} else {
			s = ""
		}
		if len(kv) > len(key) && kv[:len(key)] == key && kv[len(key)] == '=' {
			var v uint64
			for _, c := range kv[len(key)+1:] {
				v = v*10 + uint64(c-'0')
			}
			return v
		}
	}
	return def
}

func vsimInit() {
	cfg, _ := vsimEnvEarly("VSIM=")
	if cfg == "" {
		return
	}
	seed := vsimParam(cfg, "seed", 1)
	rseed := vsimParam(cfg, "rand", seed)
	vsim.rng = rseed*0x9e3779b97f4a7c15 + 1
	vsim.boot = rseed*0xbf58476d1ce4e5b9 + 2
	vsim.sch = vsimParam(cfg, "sched", seed)*0x94d049bb133111eb + 3
	vsim.clk = vsimParam(cfg, "clock", seed)*0xd6e8feb86659fd93 + 4
	vsim.interval = vsimParam(cfg, "interval", 0)
	vsim.advance = vsimParam(cfg, "advance", 0)
	vsim.yieldPM = vsimParam(cfg, "yield", 0)
	vsim.mapPM = vsimParam(cfg, "mapyield", 0)
	vsim.schedLim = vsimParam(cfg, "schedlim", ^uint64(0))
	vsim.prio = vsimParam(cfg, "prio", 0)
	vsim.prioSeed = vsim.sch
	vsim.skewPM = vsimParam(cfg, "skewpm", 0)
	vsim.skewMax = vsimParam(cfg, "skewmax", 0)
	vsim.pausePM = vsimParam(cfg, "pausepm", 0)
	vsim.pauseMax = vsimParam(cfg, "pausemax", 0)
	vsim.limit = int64(vsimParam(cfg, "limit", 3600)) * 1e9
	vsim.workLimit = vsimParam(cfg, "worklimit", 25000000)
	vsim.tickLimit = vsimParam(cfg, "ticklimit", 1<<62)
	if t := vsimParam(cfg, "time", 0); t != 0 {
		faketime = int64(t)
	}
	vsim.start = faketime
	vsim.heapShift = uintptr(vsimParam(cfg, "heap", 0)) << 26
	if _, p := vsimEnvEarly("VSIMPAGE="); p != nil {
		fd := open(p, 2 /* O_RDWR */, 0)
		if fd < 0 {
			exit(95)
		}
		m, e := mmap(nil, vsimPageSize, _PROT_READ|_PROT_WRITE, 1 /* MAP_SHARED */, fd, 0)
		if e != 0 {
			exit(95)
		}
		closefd(fd)
		vsim.page = (*[vsimPageSize / 8]uint64)(m)
	} else {
		exit(95)
	}
	vsim.page[vsMagic] = 0x5653494d31
	vsim.page[vsClockStart] = uint64(faketime)
	vsim.page[vsClockNow] = uint64(faketime)
	vsim.page[vsLogOff] = vsimLogStart
	if vsim.interval != 0 {
		vsim.countdown = 1 + vsimMix(&vsim.clk)%(2*vsim.interval)
	}
	vsim.on = true
}

//go:nosplit
func vsimTick() {
	if vsim.countdown == 0 {
		return
	}
	if gp := getg(); gp != gp.m.curg {
		return // scheduler context: depends on when threads come and go
	}
	vsim.countdown--
	if vsim.countdown == 0 {
		systemstack(vsimTickSlow)
	}
}

func vsimStop(reason string, code int32) {
	vsim.ending = true
	vsimLogRaw(reason)
	vsim.page[vsReason] = uint64(code)
	exit(code)
}

// vsimWhere logs the innermost functions of the running goroutine.
func vsimWhere() {
	gp := getg().m.curg
	if gp == nil {
		return
	}
	if !vsim.ending {
		vsim.ending = true
		vsimLogRaw("\n")
	}
	vsimWhereG(gp)
	if gp.goid != 1 {
		for _, g := range allgs {
			if g.goid == 1 && readgstatus(g) != _Gdead {
				vsimWhereG(g)
			}
		}
	}
}

func vsimWhereG(gp *g) {
	var pcs [120]uintptr
	n := gcallers(gp, 0, pcs[:])
	vsimLogRaw("WHERE")
	for _, pc := range pcs[:n] {
		if f := findfunc(pc); f.valid() {
			vsimLogRaw(" ")
			vsimLogRaw(funcname(f))
		}
	}
	vsimLogRaw("\n")
}

func vsimTickSlow() {
	vsim.countdown = 1 + vsimMix(&vsim.clk)%(2*vsim.interval)
	vsim.work += vsim.countdown
	if vsim.work > vsim.workLimit {
		vsimWhere()
		vsimStop("STOP worklimit\n", 98)
	}
	vsim.page[vsTicks]++
	if vsim.page[vsTicks] > vsim.tickLimit {
		vsimWhere()
		vsimStop("STOP ticklimit\n", 98)
	}
	if vsim.advance != 0 {
		faketime += int64(vsimMix(&vsim.clk) % vsim.advance)
		vsimClockMoved()
	}
	if vsim.pausePM != 0 && vsimMix(&vsim.clk)%65536 < vsim.pausePM {
		// as after a suspend: time has passed for everyone at once
		d := int64(1+vsimMix(&vsim.clk)%vsim.pauseMax) * 1e9
		if faketime < 1<<62 {
			faketime += d
			vsim.start += d
			vsim.page[vsPauses]++
			vsimClockMoved()
		}
	}
	if vsim.skewPM != 0 && vsimMix(&vsim.clk)%1024 < vsim.skewPM {
		d := int64(vsimMix(&vsim.clk)%(2*vsim.skewMax+1)) - int64(vsim.skewMax)
		vsim.skew += d * 1e9
		if m := int64(vsim.skewMax) * 1e9; vsim.skew > m || vsim.skew < -m {
			vsim.skew = d * 1e9 // a jump back, so that the clock stays in range
		}
		vsim.page[vsClockJumps]++
		if vsim.skew < 0 && uint64(-vsim.skew) > vsim.page[vsSkewMin] {
			vsim.page[vsSkewMin] = uint64(-vsim.skew)
		}
		if vsim.skew > 0 && uint64(vsim.skew) > vsim.page[vsSkewMax] {
			vsim.page[vsSkewMax] = uint64(vsim.skew)
		}
	}
	gp := getg().m.curg
	if gp != nil && readgstatus(gp) == _Grunning && !isSystemGoroutine(gp, false) {
		vsim.page[vsPreempts]++
		gp.preempt = true
		gp.stackguard0 = stackPreempt
	}
}

func vsimClockMoved() {
	vsim.page[vsClockNow] = uint64(faketime)
	if faketime-vsim.start > vsim.limit {
		vsimWhere()
		vsimStop("STOP timelimit\n", 98)
	}
}

// vsimYieldPoint may hand the processor to another goroutine.
func vsimYieldPoint(pm uint64) {
	if pm == 0 {
		return
	}
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.p == 0 || mp.incgo {
		return
	}
	pp := mp.p.ptr()
	if pp.runnext == 0 && pp.runqhead == pp.runqtail && sched.runq.empty() {
		if w := pp.timers.wakeTime(); w == 0 || w > faketime {
			return
		}
	}
	if readgstatus(gp) != _Grunning || isSystemGoroutine(gp, false) {
		return
	}
	if vsimMix(&vsim.sch)%1024 >= pm {
		return
	}
	vsim.page[vsYields]++
	mcall(gosched_m)
}

//go:linkname maps_vsimYield internal/runtime/maps.vsimYield
func maps_vsimYield() {
	if vsim.on && vsim.mapPM != 0 {
		n := vsim.page[vsYields]
		vsimYieldPoint(vsim.mapPM)
		vsim.page[vsMapYields] += vsim.page[vsYields] - n
	}
}

//go:linkname sync_vsimYield internal/sync.vsimYield
func sync_vsimYield() {
	if vsim.on {
		vsimTick()
		vsimYieldPoint(vsim.yieldPM)
	}
}

// vsimPick chooses among n goroutines, best is the one with the first priority.
func vsimPick(n, best uint32) uint32 {
	pg := vsim.page
	pg[vsSchedChoices]++
	if uint64(n) > pg[vsMaxRunq] {
		pg[vsMaxRunq] = uint64(n)
	}
	var k uint32
	if pg[vsSchedChoices] <= vsim.schedLim {
		if vsim.prio != 0 {
			k = best
		} else {
			k = uint32(vsimMix(&vsim.sch) % uint64(n))
		}
	}
	if k != 0 {
		pg[vsSchedNonDefault]++
	}
	pg[vsSchedHash] = (pg[vsSchedHash] ^ (uint64(k)<<8 | uint64(n))) * 0x100000001b3
	return k
}

// vsimPriority is the place of a goroutine in the order drawn for this stretch
// of the run: lower ones go first, the others starve until the next stretch.
func vsimPriority(gp *g) uint64 {
	if isSystemGoroutine(gp, false) {
		return 0
	}
	s := vsim.prioSeed + gp.goid*0xd1342543de82ef95 + vsim.page[vsSchedChoices]/vsim.prio*0x9e3779b97f4a7c15
	return vsimMix(&s) | 1
}

// vsimRunqget replaces the FIFO choice of the next goroutine.
func vsimRunqget(pp *p) *g {
	// no more than fit: what runqputbatch has no room for would be lost
	if room := int32(len(pp.runq)) - int32(pp.runqtail-atomic.LoadAcq(&pp.runqhead)); room > 0 && !sched.runq.empty() {
		lock(&sched.lock)
		gp, q := globrunqgetbatch(min(room, int32(len(pp.runq))/2))
		unlock(&sched.lock)
		if gp != nil {
			runqput(pp, gp, false)
			runqputbatch(pp, &q)
		}
	}
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	n := t - h
	hasNext := pp.runnext != 0
	if hasNext {
		n++
	}
	if n == 0 {
		return nil
	}
	k := uint32(0)
	if n > 1 {
		best := uint32(0)
		if vsim.prio != 0 {
			least := ^uint64(0)
			i := uint32(0)
			if hasNext {
				least = vsimPriority(pp.runnext.ptr())
				i = 1
			}
			for j := h; j != t; j++ {
				if v := vsimPriority(pp.runq[j%uint32(len(pp.runq))].ptr()); v < least {
					least, best = v, i
				}
				i++
			}
		}
		k = vsimPick(n, best)
	}
	if hasNext {
		if k == 0 {
			gp := pp.runnext.ptr()
			pp.runnext = 0
			return gp
		}
		k--
	}
	L := uint32(len(pp.runq))
	gp := pp.runq[(h+k)%L].ptr()
	for j := k; j > 0; j-- {
		pp.runq[(h+j)%L].set(pp.runq[(h+j-1)%L].ptr())
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	return gp
}

//go:nosplit
func vsimLogRaw(s string) {
	pg := vsim.page
	off := pg[vsLogOff]
	base := unsafe.Pointer(pg)
	end := uint64(vsimPageSize - 1)
	if !vsim.ending {
		end -= 16384
	}
	for i := 0; i < len(s); i++ {
		if off >= end {
			break
		}
		*(*byte)(unsafe.Add(base, uintptr(off))) = s[i]
		off++
	}
	pg[vsLogOff] = off
}

// entry points for package syscall

//go:linkname syscall_vsimOn syscall.vsimOn
func syscall_vsimOn() bool { return vsim.on }

//go:linkname syscall_vsimLog syscall.vsimLog
func syscall_vsimLog(s string) {
	if vsim.on {
		vsimLogRaw(s)
	}
}

//go:linkname syscall_vsimCount syscall.vsimCount
func syscall_vsimCount(i int) {
	if vsim.on {
		vsim.page[vsFault0+i]++
	}
}

//go:linkname syscall_vsimTick syscall.vsimTick
func syscall_vsimTick() {
	if vsim.on {
		vsimTick()
		vsimYieldPoint(vsim.yieldPM)
	}
}

//go:linkname syscall_vsimExit syscall.vsimExit
func syscall_vsimExit(code int) {
	vsim.page[vsReason] = uint64(code)
	exit(int32(code))
}

//go:linkname syscall_vsimGoid syscall.vsimGoid
func syscall_vsimGoid() uint64 { return getg().goid }

//go:linkname syscall_vsimNow syscall.vsimNow
func syscall_vsimNow() int64 { return faketime - vsim.start }

//go:linkname syscall_vsimRandU64 syscall.vsimRandU64
func syscall_vsimRandU64() uint64 { return vsimRand() }
