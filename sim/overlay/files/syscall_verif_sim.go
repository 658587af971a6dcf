// Simulation seam: overlaid into package syscall by /verif (never shipped).
// Classifies file operations by path, records them, and applies the explicit
// fault plan of this run (VSIMPLAN).

package syscall

import _ "unsafe"

//go:linkname vsimOn
func vsimOn() bool

//go:linkname vsimLog
func vsimLog(s string)

//go:linkname vsimCount
func vsimCount(i int)

//go:linkname vsimTick
func vsimTick()

//go:linkname vsimExit
func vsimExit(code int)

//go:linkname vsimGoid
func vsimGoid() uint64

//go:linkname vsimNow
func vsimNow() int64

const (
	vopOpen = iota
	vopRead
	vopWrite
	vopClose
	vopMkdir
	vopStat
	vopUnlink
	vopRename
	vopTrunc
	vopSync
	vopChmod
	vopDents
	vopLink
	vopOther
	vopMax
)

var vopNames = [vopMax]string{"open", "read", "write", "close", "mkdir", "stat", "unlink", "rename", "trunc", "sync", "chmod", "dents", "link", "other"}

// actions
const (
	vactNone = iota
	vactErr
	vactShort
	vactLose
	vactCrash
	vactTorn
	vactCrashAfter
)

type vsimRule struct {
	op, class int
	k         int
	sticky    bool
	act       int
	errno     Errno
	arg       int
}

type vsimClassT struct {
	name, prefix string
}

var vsim struct {
	inited  bool
	on      bool
	busy    bool
	cwd     string
	classes []vsimClassT
	names   []string
	rules   []vsimRule
	budget  int64
	counts  [vopMax][16]int
	fdClass [1024]int8
	fdPath  [1024]string
	seq     int
}

var vsimErrnos = []struct {
	n string
	e Errno
}{
	{"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"EMFILE", EMFILE}, {"ENFILE", ENFILE},
	{"EROFS", EROFS}, {"EDQUOT", EDQUOT}, {"EINTR", EINTR}, {"ENOENT", ENOENT}, {"ENOMEM", ENOMEM}, {"EPERM", EPERM},
	{"EAGAIN", EAGAIN}, {"ELOOP", ELOOP}, {"ENAMETOOLONG", ENAMETOOLONG}, {"ESTALE", ESTALE}, {"EFBIG", EFBIG},
}

func vsimCut(s string, c byte) (a, b string) {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return s[:i], s[i+1:]
		}
	}
	return s, ""
}

func vsimAtoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			break
		}
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func vsimItoa(n int) string {
	if n < 0 {
		return "-" + vsimItoa(-n)
	}
	var b [20]byte
	i := len(b)
	for {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
		if n == 0 {
			break
		}
	}
	return string(b[i:])
}

func vsimHasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

func vsimClassIndex(name string) int {
	for i, n := range vsim.names {
		if n == name {
			return i
		}
	}
	vsim.names = append(vsim.names, name)
	return len(vsim.names) - 1
}

func vsimSetup() {
	vsim.inited = true
	if !vsimOn() {
		return
	}
	vsim.budget = -1
	vsim.names = []string{"sim", "std", "sys", "out", "in"}
	cls, _ := Getenv("VSIMCLASSES") // name:prefix;name:prefix  (first match wins)
	for cls != "" {
		var e string
		e, cls = vsimCut(cls, ';')
		n, p := vsimCut(e, ':')
		vsimClassIndex(n)
		vsim.classes = append(vsim.classes, vsimClassT{n, p})
	}
	vsim.cwd, _ = Getenv("PWD")
	plan, _ := Getenv("VSIMPLAN")
	for plan != "" {
		var e string
		e, plan = vsimCut(plan, ';')
		if e == "" {
			continue
		}
		if vsimHasPrefix(e, "budget:") {
			vsim.budget = int64(vsimAtoi(e[7:]))
			continue
		}
		lhs, rhs := vsimCut(e, '=')
		op, rest := vsimCut(lhs, ':')
		class, ks := vsimCut(rest, ':')
		r := vsimRule{op: -1, class: vsimClassIndex(class), k: vsimAtoi(ks)}
		if len(ks) > 0 && ks[len(ks)-1] == '+' {
			r.sticky = true
		}
		for i, n := range vopNames {
			if n == op {
				r.op = i
			}
		}
		switch {
		case vsimHasPrefix(rhs, "short"):
			r.act, r.arg = vactShort, vsimAtoi(rhs[5:])
		case rhs == "lose":
			r.act = vactLose
		case rhs == "crash":
			r.act = vactCrash
		case rhs == "crashafter":
			r.act = vactCrashAfter
		case vsimHasPrefix(rhs, "torn"):
			r.act, r.arg = vactTorn, vsimAtoi(rhs[4:])
		default:
			for _, x := range vsimErrnos {
				if x.n == rhs {
					r.act, r.errno = vactErr, x.e
				}
			}
		}
		if r.op < 0 || r.act == vactNone {
			vsimLog("STOP badplan " + e + "\n")
			vsimExit(95)
		}
		vsim.rules = append(vsim.rules, r)
	}
	vsim.on = true
	vsim.fdClass[1], vsim.fdClass[2] = 1, 1
	vsim.fdPath[1], vsim.fdPath[2] = "<1>", "<2>"
}

func vsimActive() bool {
	if !vsim.inited {
		if vsim.busy {
			return false
		}
		vsim.busy = true
		vsimSetup()
		vsim.busy = false
	}
	return vsim.on
}

func vsimClean(p string) string {
	if len(p) == 0 || p[0] != '/' {
		p = vsim.cwd + "/" + p
	}
	var parts []string
	for p != "" {
		var e string
		e, p = vsimCut(p, '/')
		switch e {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, e)
		}
	}
	s := ""
	for _, e := range parts {
		s += "/" + e
	}
	if s == "" {
		s = "/"
	}
	return s
}

func vsimClassify(p string) int {
	for _, c := range vsim.classes {
		if p == c.prefix || (vsimHasPrefix(p, c.prefix) && (c.prefix[len(c.prefix)-1] == '/' || p[len(c.prefix)] == '/')) {
			return vsimClassIndex(c.name)
		}
	}
	return 2
}

type vsimCall struct {
	act   int
	errno Errno
	arg   int
	class int
	op    int
	k     int
	path  string
	n     int
}

func vsimMutates(op, n int) bool {
	switch op {
	case vopOpen:
		return n&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND) != 0
	case vopMkdir, vopUnlink, vopRename, vopTrunc, vopChmod, vopLink, vopOther:
		return true
	}
	return false
}

func vsimBegin(op, class int, path string, n int) (c vsimCall) {
	c.op, c.class, c.path, c.n = op, class, path, n
	if class == 0 {
		return
	}
	vsimTick()
	if class == 2 && path != "" && vsimMutates(op, n) && path != "/dev/null" {
		// a change outside the scratch tree: recorded and refused
		vsimLog("ESCAPE " + vopNames[op] + " " + path + " n=" + vsimItoa(n) + "\n")
		c.act, c.errno = vactErr, EACCES
		return
	}
	c.k = vsim.counts[op][class]
	vsim.counts[op][class]++
	for i := range vsim.rules {
		r := &vsim.rules[i]
		if r.op == op && r.class == class && (r.k == c.k || (r.sticky && c.k > r.k)) {
			c.act, c.errno, c.arg = r.act, r.errno, r.arg
			break
		}
	}
	if op == vopWrite && class == 3 && vsim.budget >= 0 && c.act == vactNone {
		if int64(n) > vsim.budget {
			if vsim.budget > 0 {
				c.act, c.arg = vactShort, int(vsim.budget)
			} else {
				c.act, c.errno = vactErr, ENOSPC
			}
		}
	}
	if c.act == vactCrash {
		vsimCount(op)
		vsimEnd(c, -1, 0)
		vsimLog("STOP crash\n")
		vsimExit(97)
	}
	return
}

func vsimEnd(c vsimCall, r int, e Errno) {
	if c.class == 0 {
		return
	}
	if c.op == vopWrite && c.class == 3 && vsim.budget >= 0 && r > 0 {
		vsim.budget -= int64(r)
	}
	if c.act != vactNone {
		vsimCount(c.op)
	}
	if c.class == 2 && c.act == vactNone {
		return // system headers etc.: only faults are recorded
	}
	s := "OP " + vsimItoa(vsim.seq) + " t" + vsimItoa(int(vsimNow())) + " g" + vsimItoa(int(vsimGoid())) + " " + vopNames[c.op] + ":" + vsim.names[c.class] + ":" + vsimItoa(c.k) + " " + c.path + " n=" + vsimItoa(c.n) + " r=" + vsimItoa(r)
	if e != 0 {
		s += " e=" + vsimItoa(int(e))
	}
	switch c.act {
	case vactErr:
		s += " FAULT=err"
	case vactShort:
		s += " FAULT=short"
	case vactLose:
		s += " FAULT=lose"
	case vactCrash:
		s += " FAULT=crash"
	case vactTorn:
		s += " FAULT=torn"
	case vactCrashAfter:
		s += " FAULT=crashafter"
	}
	vsim.seq++
	vsimLog(s + "\n")
	if c.act == vactTorn || c.act == vactCrashAfter {
		vsimLog("STOP crash\n")
		vsimExit(97)
	}
}

func vsimErrnoOf(err error) Errno {
	if err == nil {
		return 0
	}
	if e, ok := err.(Errno); ok {
		return e
	}
	return EIO
}

func vsimPathAt(dirfd int, path string) string {
	if len(path) > 0 && path[0] != '/' && dirfd >= 0 && dirfd < len(vsim.fdPath) && vsim.fdPath[dirfd] != "" {
		path = vsim.fdPath[dirfd] + "/" + path
	}
	return vsimClean(path)
}

func vsimPathOp(op int, dirfd int, path string, arg int, real func() error) error {
	if !vsimActive() {
		return real()
	}
	p := vsimPathAt(dirfd, path)
	c := vsimBegin(op, vsimClassify(p), p, arg)
	if c.act == vactErr {
		vsimEnd(c, -1, c.errno)
		return c.errno
	}
	err := real()
	r := 0
	if err != nil {
		r = -1
	}
	vsimEnd(c, r, vsimErrnoOf(err))
	return err
}

func vsimFdOp(op int, fd int, arg int, real func() error) error {
	if !vsimActive() || fd < 0 || fd >= len(vsim.fdClass) {
		return real()
	}
	cl := int(vsim.fdClass[fd])
	c := vsimBegin(op, cl, vsim.fdPath[fd], arg)
	if c.act == vactErr && op != vopClose {
		vsimEnd(c, -1, c.errno)
		return c.errno
	}
	if c.act == vactLose {
		// a delayed write failed: the tail of the file never reached the disk
		var st Stat_t
		if vreal_Fstat(fd, &st) == nil {
			vreal_Ftruncate(fd, st.Size/2)
		}
		c.errno = EIO
	}
	err := real()
	if op == vopClose {
		vsim.fdClass[fd] = 0
		vsim.fdPath[fd] = ""
		if c.act == vactErr || c.act == vactLose {
			err = c.errno
		}
	}
	r := 0
	if err != nil {
		r = -1
	}
	vsimEnd(c, r, vsimErrnoOf(err))
	return err
}

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if !vsimActive() {
		return vreal_openat(dirfd, path, flags, mode)
	}
	p := vsimPathAt(dirfd, path)
	c := vsimBegin(vopOpen, vsimClassify(p), p, flags)
	if c.act == vactErr {
		vsimEnd(c, -1, c.errno)
		return -1, c.errno
	}
	fd, err = vreal_openat(dirfd, path, flags, mode)
	if err == nil && fd < len(vsim.fdClass) {
		vsim.fdClass[fd] = int8(c.class)
		vsim.fdPath[fd] = p
	}
	vsimEnd(c, fd, vsimErrnoOf(err))
	return
}

func write(fd int, p []byte) (n int, err error) {
	if !vsimActive() || fd < 0 || fd >= len(vsim.fdClass) {
		return vreal_write(fd, p)
	}
	c := vsimBegin(vopWrite, int(vsim.fdClass[fd]), vsim.fdPath[fd], len(p))
	switch c.act {
	case vactErr:
		vsimEnd(c, -1, c.errno)
		return -1, c.errno
	case vactShort, vactTorn:
		if c.arg < len(p) {
			p = p[:c.arg]
		}
	}
	n, err = vreal_write(fd, p)
	vsimEnd(c, n, vsimErrnoOf(err))
	return
}

func pwrite(fd int, p []byte, off int64) (n int, err error) {
	if !vsimActive() || fd < 0 || fd >= len(vsim.fdClass) {
		return vreal_pwrite(fd, p, off)
	}
	c := vsimBegin(vopWrite, int(vsim.fdClass[fd]), vsim.fdPath[fd], len(p))
	switch c.act {
	case vactErr:
		vsimEnd(c, -1, c.errno)
		return -1, c.errno
	case vactShort, vactTorn:
		if c.arg < len(p) {
			p = p[:c.arg]
		}
	}
	n, err = vreal_pwrite(fd, p, off)
	vsimEnd(c, n, vsimErrnoOf(err))
	return
}

func read(fd int, p []byte) (n int, err error) {
	if !vsimActive() || fd < 0 || fd >= len(vsim.fdClass) {
		return vreal_read(fd, p)
	}
	c := vsimBegin(vopRead, int(vsim.fdClass[fd]), vsim.fdPath[fd], len(p))
	switch c.act {
	case vactErr:
		vsimEnd(c, -1, c.errno)
		return -1, c.errno
	case vactShort:
		if c.arg < len(p) && c.arg > 0 {
			p = p[:c.arg]
		}
	}
	n, err = vreal_read(fd, p)
	vsimEnd(c, n, vsimErrnoOf(err))
	return
}

func Close(fd int) error {
	return vsimFdOp(vopClose, fd, 0, func() error { return vreal_Close(fd) })
}
func Fsync(fd int) error { return vsimFdOp(vopSync, fd, 0, func() error { return vreal_Fsync(fd) }) }
func Fdatasync(fd int) error {
	return vsimFdOp(vopSync, fd, 0, func() error { return vreal_Fdatasync(fd) })
}
func Ftruncate(fd int, length int64) error {
	return vsimFdOp(vopTrunc, fd, int(length), func() error { return vreal_Ftruncate(fd, length) })
}
func Fchmod(fd int, mode uint32) error {
	return vsimFdOp(vopChmod, fd, int(mode), func() error { return vreal_Fchmod(fd, mode) })
}
func Fstat(fd int, st *Stat_t) error {
	return vsimFdOp(vopStat, fd, 0, func() error { return vreal_Fstat(fd, st) })
}
func Getdents(fd int, buf []byte) (n int, err error) {
	err = vsimFdOp(vopDents, fd, len(buf), func() error { n, err = vreal_Getdents(fd, buf); return err })
	if err != nil {
		n = -1
	}
	return n, err
}
func Mkdirat(dirfd int, path string, mode uint32) error {
	return vsimPathOp(vopMkdir, dirfd, path, int(mode), func() error { return vreal_Mkdirat(dirfd, path, mode) })
}
func unlinkat(dirfd int, path string, flags int) error {
	return vsimPathOp(vopUnlink, dirfd, path, flags, func() error { return vreal_unlinkat(dirfd, path, flags) })
}
func fstatat(dirfd int, path string, st *Stat_t, flags int) error {
	return vsimPathOp(vopStat, dirfd, path, flags, func() error { return vreal_fstatat(dirfd, path, st, flags) })
}
func fchmodat(dirfd int, path string, mode uint32) error {
	return vsimPathOp(vopChmod, dirfd, path, int(mode), func() error { return vreal_fchmodat(dirfd, path, mode) })
}
func Truncate(path string, length int64) error {
	return vsimPathOp(vopTrunc, _AT_FDCWD, path, int(length), func() error { return vreal_Truncate(path, length) })
}
func Renameat(od int, op string, nd int, np string) error {
	return vsimPathOp(vopRename, nd, np, 0, func() error { return vreal_Renameat(od, op, nd, np) })
}
func linkat(od int, op string, nd int, np string, flags int) error {
	return vsimPathOp(vopLink, nd, np, flags, func() error { return vreal_linkat(od, op, nd, np, flags) })
}
func symlinkat(op string, nd int, np string) error {
	return vsimPathOp(vopLink, nd, np, 0, func() error { return vreal_symlinkat(op, nd, np) })
}
func Fchownat(dirfd int, path string, uid int, gid int, flags int) error {
	return vsimPathOp(vopChmod, dirfd, path, flags, func() error { return vreal_Fchownat(dirfd, path, uid, gid, flags) })
}
func utimensat(dirfd int, path string, times *[2]Timespec, flag int) error {
	return vsimPathOp(vopOther, dirfd, path, flag, func() error { return vreal_utimensat(dirfd, path, times, flag) })
}

// VsimActive and friends serve package os/exec.
func VsimActive() bool  { return vsimActive() }
func VsimLog(s string)  { vsimLog(s) }
func VsimExit(code int) { vsimExit(code) }
func VsimCount(i int)   { vsimCount(i) }
func VsimTick()         { vsimTick() }

//go:linkname vsimRandU64
func vsimRandU64() uint64

// VsimRandom fills p from the seeded source of the runtime.
func VsimRandom(p []byte) {
	for i := range p {
		p[i] = byte(vsimRandU64() >> 24)
	}
}

func Getpid() (pid int) {
	if vsimActive() {
		return 4242
	}
	return vreal_Getpid()
}

func Getppid() (pid int) {
	if vsimActive() {
		return 4241
	}
	return vreal_Getppid()
}
