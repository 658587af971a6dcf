package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
)

const (
	verifDir = "/verif"
	repoDir  = "/repo"
)

var buildDir = verifDir + "/.build"

func realGoroot() string { return "/opt/veriftools/go1.27.3" }

func goEnv() []string {
	return []string{
		"PATH=" + realGoroot() + "/bin:/usr/local/bin:/usr/bin:/bin", "HOME=" + buildDir + "/home",
		"GOROOT=" + realGoroot(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=" + os.Getenv("GOFLAGS"),
		"GOMODCACHE=" + gomodcache(), "GOPATH=" + buildDir + "/gopath",
	}
}

func gomodcache() string {
	if v := os.Getenv("GOMODCACHE"); v != "" {
		return v
	}
	out, err := exec.Command("go", "env", "GOMODCACHE").Output()
	if err != nil {
		return "/root/go/pkg/mod"
	}
	return strings.TrimSpace(string(out))
}

// buildAll builds the simulated tool from /repo's working tree.
func buildAll() (tool, goroot string, err error) {
	if err := os.MkdirAll(buildDir+"/home", 0755); err != nil {
		return "", "", err
	}
	lf, err := os.OpenFile(buildDir+"/.lock", os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		return "", "", err
	}
	defer lf.Close()
	syscall.Flock(int(lf.Fd()), syscall.LOCK_EX)
	ov, err := writeOverlay(realGoroot(), verifDir+"/sim/overlay/files", buildDir+"/overlay", nil)
	if err != nil {
		return "", "", err
	}
	tool = buildDir + "/simtool"
	c := exec.Command(realGoroot()+"/bin/go", "build", "-buildvcs=false", "-tags", "faketime", "-overlay", ov, "-o", tool, ".")
	c.Dir = repoDir
	c.Env = append(goEnv(), "GOEXPERIMENT=nosizespecializedmalloc", "GOCACHE="+buildDir+"/gocache", "CGO_ENABLED=0")
	out, err := c.CombinedOutput()
	if err != nil {
		return "", "", fmt.Errorf("building the simulated tool: %v\n%s", err, out)
	}
	// a second link at another address shows output that depends on pointers
	c2 := exec.Command(realGoroot()+"/bin/go", "build", "-buildvcs=false", "-tags", "faketime", "-overlay", ov, "-ldflags", "-T 0x1401000", "-o", tool+"-alt", ".")
	c2.Dir, c2.Env = c.Dir, c.Env
	if out, err := c2.CombinedOutput(); err != nil {
		return "", "", fmt.Errorf("linking the simulated tool elsewhere: %v\n%s", err, out)
	}
	os.Chmod(tool+"-alt", 0755)
	goroot = buildDir + "/goroot"
	if err := miniGoroot(goroot); err != nil {
		return "", "", err
	}
	// everything the unprivileged simulated process has to reach
	os.Chmod(tool, 0755)
	return tool, goroot, nil
}

// miniGoroot copies the few standard packages the import resolver of the tool
// may need, so that a simulated run does not scan the whole tree.
func miniGoroot(dst string) error {
	if _, err := os.Stat(dst + "/src/unsafe/unsafe.go"); err == nil {
		return nil
	}
	tmp := dst + ".tmp"
	os.RemoveAll(tmp)
	for _, p := range []string{"fmt", "runtime", "sync", "unsafe", "errors", "strings", "os", "math", "reflect"} {
		src := filepath.Join(realGoroot(), "src", p)
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		if err := os.MkdirAll(filepath.Join(tmp, "src", p), 0755); err != nil {
			return err
		}
		copied := 0
		for _, e := range ents {
			if copied >= 2 {
				break
			}
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(src, e.Name()))
			if err != nil {
				return err
			}
			if err := os.WriteFile(filepath.Join(tmp, "src", p, e.Name()), b, fs.FileMode(0644)); err != nil {
				return err
			}
			copied++
		}
	}
	b, err := os.ReadFile(filepath.Join(realGoroot(), "src/go.mod"))
	if err == nil {
		os.WriteFile(filepath.Join(tmp, "src/go.mod"), b, 0644)
	}
	os.RemoveAll(dst)
	return os.Rename(tmp, dst)
}

// buildXL builds the program that questions translators, as a package of the
// repository's module that exists only in the overlay.
func buildXL() error {
	lf, err := os.OpenFile(buildDir+"/.lock", os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		return err
	}
	defer lf.Close()
	syscall.Flock(int(lf.Fd()), syscall.LOCK_EX)
	b, err := os.ReadFile(buildDir + "/overlay/overlay.json")
	if err != nil {
		return err
	}
	var o struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &o); err != nil {
		return err
	}
	o.Replace[repoDir+"/zz_verif/main.go"] = verifDir + "/sim/xl/main.go.txt"
	j, _ := json.MarshalIndent(o, "", " ")
	if err := writeIfChanged(buildDir+"/overlay/overlay-xl.json", j); err != nil {
		return err
	}
	c := exec.Command(realGoroot()+"/bin/go", "build", "-buildvcs=false", "-tags", "faketime", "-overlay", buildDir+"/overlay/overlay-xl.json", "-o", buildDir+"/xltool", "./zz_verif")
	c.Dir = repoDir
	c.Env = append(goEnv(), "GOEXPERIMENT=nosizespecializedmalloc", "GOCACHE="+buildDir+"/gocache", "CGO_ENABLED=0")
	if out, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("building the questioner: %v\n%s", err, out)
	}
	return os.Chmod(buildDir+"/xltool", 0755)
}
