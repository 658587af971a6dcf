package main

import (
	"encoding/json"
	"os"
	"regexp"
	"strings"
	"sync"
)

// Known is a genuine defect of the repository that was recorded rather than
// repaired. It is identified by the violation text together with the replayed
// plan or input that shows it; anything else is still reported.
type Known struct {
	ID        string `json:"id"`
	Property  string `json:"property"`
	What      string `json:"what"`
	Violation string `json:"violation"` // regexp over the violation text
	Plan      string `json:"plan,omitempty"`
	Input     string `json:"input,omitempty"` // regexp over the input files
	Oracle    string `json:"oracle,omitempty"`
}

type knownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

var knownOnce sync.Once
var knownList []Known

func knownFindings() []Known {
	knownOnce.Do(func() {
		b, err := os.ReadFile(verifDir + "/known_findings.json")
		if err != nil {
			return
		}
		var f knownFile
		if err := json.Unmarshal(b, &f); err != nil {
			panic("known_findings.json: " + err.Error())
		}
		knownList = f.Findings
	})
	return knownList
}

func (k Known) match(c *Case) bool {
	if k.Oracle != "" && k.Oracle != c.Oracle {
		return false
	}
	if ok, _ := regexp.MatchString(k.Violation, c.Violation); !ok {
		return false
	}
	if k.Plan != "" {
		hit := false
		for _, s := range c.Sub {
			if ok, _ := regexp.MatchString(k.Plan, s.Plan+"|"+s.ExecPlan); ok {
				hit = true
			}
		}
		if !hit {
			return false
		}
	}
	if k.Input != "" {
		var b strings.Builder
		for n, s := range c.Files {
			b.WriteString(n + "\n" + s + "\n")
		}
		if ok, _ := regexp.MatchString(k.Input, b.String()); !ok {
			return false
		}
	}
	return true
}
