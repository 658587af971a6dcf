// Simulation seam: overlaid into package os/exec by /verif (never shipped).
// Child processes are replaced by recorded transcripts with injected faults.

package exec

import (
	"io"
	"io/fs"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// transcript file: <dir>/<fnv64 of argv>; first line exit code, second line
// length of stdout, then stdout, then stderr.
func vsimExecKey(args []string) string {
	h := uint64(14695981039346656037)
	for _, a := range args {
		for i := 0; i < len(a); i++ {
			h = (h ^ uint64(a[i])) * 1099511628211
		}
		h = (h ^ 0) * 1099511628211
	}
	return strconv.FormatUint(h, 16)
}

var vsimExecSeq int

func (c *Cmd) vsimStart() error {
	if c.Err != nil {
		return c.Err
	}
	args := append([]string{c.Dir, c.Path}, c.Args...)
	k := vsimExecSeq
	vsimExecSeq++
	desc := strings.ReplaceAll(strings.Join(c.Args, " "), "\n", " ")
	fault := ""
	for _, f := range strings.Split(os.Getenv("VSIMEXECPLAN"), ";") { // k=action
		a, b, ok := strings.Cut(f, "=")
		if ok && a == strconv.Itoa(k) {
			fault = b
		}
	}
	syscall.VsimLog("EXEC " + strconv.Itoa(k) + " " + desc + " fault=" + fault + "\n")
	if fault != "" {
		syscall.VsimCount(20)
	}
	switch {
	case fault == "missing":
		c.vsimErr = &Error{Name: c.Path, Err: fs.ErrNotExist}
		return c.vsimErr
	case fault == "eagain":
		c.vsimErr = &fs.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.EAGAIN}
		return c.vsimErr
	}
	dir := os.Getenv("VSIMEXEC")
	data, err := os.ReadFile(dir + "/" + vsimExecKey(args))
	if err != nil {
		f, err := os.OpenFile(dir+"/need", os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
		if err == nil {
			f.WriteString(strings.Join(args, "\x00") + "\x01")
			f.Close()
		}
		syscall.VsimLog("STOP execmissing " + desc + "\n")
		syscall.VsimExit(96)
	}
	l1, rest, _ := strings.Cut(string(data), "\n")
	l2, rest, _ := strings.Cut(rest, "\n")
	code, _ := strconv.Atoi(l1)
	n, _ := strconv.Atoi(l2)
	stdout, stderr := rest[:n], rest[n:]
	switch {
	case fault == "fail":
		stdout, stderr, code = "", "simulated failure\n", 1
	case strings.HasPrefix(fault, "trunc"):
		n, _ := strconv.Atoi(fault[5:])
		if n < len(stdout) {
			stdout = stdout[:n]
		}
		stderr, code = "", 1
	case strings.HasPrefix(fault, "cut"):
		// what arrives is incomplete, and nothing else tells
		n, _ := strconv.Atoi(fault[3:])
		if n < len(stdout) {
			stdout = stdout[:n]
		}
		if n < len(stderr) {
			stderr = stderr[:n]
		}
	case strings.HasPrefix(fault, "kill"):
		n, _ := strconv.Atoi(fault[4:])
		if n < len(stdout) {
			stdout = stdout[:n]
		}
		code = -1
	case strings.HasPrefix(fault, "slow"):
		n, _ := strconv.Atoi(fault[4:])
		time.Sleep(time.Duration(n) * time.Millisecond)
	}
	if c.Stdout != nil {
		io.WriteString(c.Stdout, stdout)
	}
	if c.Stderr != nil {
		io.WriteString(c.Stderr, stderr)
	}
	c.vsimDone = true
	if code != 0 {
		c.vsimErr = vsimExit(code)
	}
	return nil
}

// vsimExit builds the *ExitError a real child would give; code -1 stands for
// a child that was killed.
func vsimExit(code int) error {
	st := syscall.WaitStatus(code << 8)
	if code < 0 {
		st = 9
	}
	ps := new(os.ProcessState)
	// the leading fields of os.ProcessState on unix
	(*struct {
		pid    int
		status syscall.WaitStatus
		rusage *syscall.Rusage
	})(unsafe.Pointer(ps)).status = st
	return &ExitError{ProcessState: ps}
}
