package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check PROPERTY TIER | replay FILE | gen SEED | try SEED")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "setup":
		_, _, err := buildAll()
		die(err)
	case "replay":
		os.Exit(runReplay(os.Args[2]))
	case "shape":
		n, _ := strconv.ParseInt(os.Args[2], 10, 64)
		die(writeShape(n, os.Args[3]))
	case "mass":
		tool, gr, err := buildAll()
		die(err)
		s, err := newSim(tool, gr, realGoroot(), 8)
		die(err)
		defer s.close()
		from, _ := strconv.ParseInt(os.Args[2], 10, 64)
		to, _ := strconv.ParseInt(os.Args[3], 10, 64)
		loadImports()
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i := from; i < to; i++ {
			wg.Add(1)
			sl := <-s.slots
			go func() {
				defer wg.Done()
				in := genInput(i, genOpt{tidy: true, noCGO: -1})
				rs, err := s.play(sl, in.history("-nostamp"))
				s.slots <- sl
				die(err)
				mu.Lock()
				defer mu.Unlock()
				if rs[0].Code != 0 {
					fmt.Println(i, "code", rs[0].Code, cut(rs[0].Stderr, 300))
					return
				}
				for k, d := range in.Pkgs {
					_ = k
					ps := checkPackage(rs[0].Tree, d, validateSrc)
					for _, p := range ps {
						fmt.Println(i, d, p)
					}
				}
			}()
		}
		wg.Wait()
		fmt.Println("runs", s.runs)
	case "dump":
		from, _ := strconv.ParseInt(os.Args[2], 10, 64)
		to, _ := strconv.ParseInt(os.Args[3], 10, 64)
		for i := from; i < to; i++ {
			o := []genOpt{{allowCC: true}, {tidy: true, noCGO: -1}, {pkgconf: true, allowCC: true}, {confDir: true}, {manifests: 3, small: true}, {allowCC: true, small: true}}[i%6]
			in := genInput(i, o)
			d := fmt.Sprintf("%s/%d", os.Args[4], i)
			for k, v := range in.Files {
				os.MkdirAll(filepath.Dir(d+"/"+k), 0755)
				os.WriteFile(d+"/"+k, []byte(v), 0644)
			}
			os.WriteFile(d+"/args", []byte(strings.Join(append(in.Args, in.Manifests...), "\n")+"\n"), 0644)
		}
	case "det":
		tool, gr, err := buildAll()
		die(err)
		s, err := newSim(tool, gr, realGoroot(), 8)
		die(err)
		defer s.close()
		from, _ := strconv.ParseInt(os.Args[2], 10, 64)
		to, _ := strconv.ParseInt(os.Args[3], 10, 64)
		var wg sync.WaitGroup
		for i := from; i < to; i++ {
			wg.Add(1)
			sl := <-s.slots
			go func() {
				defer wg.Done()
				in := genInput(i, genOpt{allowCC: true})
				h := in.history("-nostamp")
				h.Steps[0].Params = perturb(rand.New(rand.NewSource(i)))
				var first *RunResult
				for k := 0; k < 4; k++ {
					rs, err := s.play(sl, h)
					die(err)
					if first == nil {
						first = rs[0]
					} else if first.Hash != rs[0].Hash {
						fmt.Println(i, "slot", sl.k, "differs at", k, first.Page[:20], rs[0].Page[:20], diffText(first.Log, rs[0].Log), diffTrees(first.Tree, rs[0].Tree), first.Stdout == rs[0].Stdout, first.Stderr == rs[0].Stderr)
						break
					}
				}
				s.slots <- sl
			}()
		}
		wg.Wait()
	case "try":
		tool, gr, err := buildAll()
		die(err)
		s, err := newSim(tool, gr, realGoroot(), 8)
		die(err)
		defer s.close()
		seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
		in := genInput(seed, genOpt{tidy: true, noCGO: -1})
		h := in.history("-nostamp")
		s.withSlot(func(sl *Slot) {
			for i := 0; i < 3; i++ {
				t0 := time.Now()
				rs, err := s.play(sl, h)
				die(err)
				r := rs[0]
				fmt.Println(r.Code, r.Signal, r.Tree.files(), r.Hash, r.Page[:20], len(r.Log), time.Since(t0))
				fmt.Println(cut(r.Stderr, 1500))
			}
			for _, f := range os.Args[3:] {
				os.MkdirAll(f, 0755)
				copyTree(sl.root, f)
			}
		})
	}
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vsim:", err)
		os.Exit(3)
	}
}

// history is a single fault-free run of the input.
func (in *Input) history(extra ...string) History {
	h := History{Files: map[string]string{}}
	for k, v := range in.Files {
		h.Files["in/"+k] = v
	}
	h.Steps = []Step{{Kind: "run", Args: in.args(extra...), Params: calm()}}
	return h
}

func (in *Input) args(extra ...string) []string {
	a := append([]string{"-out", "<root>/out"}, in.Args...)
	a = append(a, extra...)
	for _, m := range in.Manifests {
		a = append(a, "<root>/in/"+m)
	}
	return a
}
