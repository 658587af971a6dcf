package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"
)

// P10: questions to a translator from several goroutines, and in several
// orders, against those of a lone caller.

var reViol = regexp.MustCompile(`(?m)^VIOL P10 (.*)$`)

func oracleXL(c *Case, refs [][]*RunResult, sub []*RunResult) string {
	for _, r := range sub {
		if !strings.HasPrefix(r.Stdout, "PARSED") && (r.Code == 98 || strings.HasPrefix(r.Stdout, "SKIP")) {
			continue // nothing to ask about: the C front end did not get through
		}
		if strings.HasPrefix(r.Stdout, "PARSED\nSKIP") {
			continue // the translator refuses the manifest
		}
		if m := reViol.FindStringSubmatch(r.Stdout); m != nil {
			return m[1]
		}
		if r.Code == 98 || r.Code == 97 || r.Signal == "killed" {
			return "hang: the questions do not end within their bound in " + where(r)
		}
		if r.Code != 0 || !reDone.MatchString(r.Stdout) {
			return fmt.Sprintf("crash: code %d %s: %s", r.Code, r.Signal, crashText(r.Stderr))
		}
	}
	return ""
}

func p10(x *Explorer, sl *Slot, seed int64) {
	in := x.input(seed, genOpt{manifests: 1, small: seed%4 == 1})
	r := rand.New(rand.NewSource(seed ^ 0x10))
	files := filesOf(in)
	for k := 0; k < 4 && !x.done(); k++ {
		p := perturb(r)
		p.Alt = false
		p.TickLim = 400000000
		p.Limit = 1 << 30
		if k > 0 && p.MapYield == 0 {
			p.MapYield = 500
		}
		var args []string
		for _, a := range in.Args {
			if strings.HasPrefix(a, "-ccincl") || strings.HasPrefix(a, "-ccdefs") {
				args = append(args, a)
			}
		}
		st := runStep(append(args, "<root>/in/"+in.Manifests[0]), p)
		st.Tool = "xl"
		st.VT = vtString(map[string]uint64{"seed": uint64(r.Int63n(1 << 40)), "g": uint64(1 + r.Intn(6)), "n": uint64(20 + r.Intn(100)), "rounds": uint64(1 + r.Intn(3))})
		rs := x.try(sl, Case{Oracle: "xl", InputSeed: seed, Files: files, Sub: []Step{st}, Note: "questions"}, nil)
		if rs == nil {
			return
		}
		if strings.Contains(rs[0].Stdout, "SKIP ") || !strings.HasPrefix(rs[0].Stdout, "PARSED") {
			x.count("skipped", 1)
			return
		}
		x.bindStats(rs[0])
	}
}

func init() {
	oracles["xl"] = oracleXL
	props["P10"] = &Prop{id: "P10", level: "exploration", quick: 1 << 30, quickS: 55, thorS: 1500, one: p10,
		rule:    "A case is one set of headers and one manifest, learned by fresh translators that answer the same several hundred to thousand questions: a lone caller, the same again, another order, and two to seven goroutines at once under a drawn schedule; all answers have to agree. Non-trivial: the schedule departs from first-in first-out; distinct by input seed, questions and choices.",
		assume:  toolAssume,
		real:    []string{"parser, translator (unmodified, from /repo)", "modernc.org/cc C front end", "Go runtime scheduler, channels, maps, locks (instrumented)"},
		stub:    toolStub,
		prepare: func(x *Explorer) error { return buildXL() },
	}
}
