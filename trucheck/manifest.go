package main

// Generates /verif/MANIFEST.json from the registered checks.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var notApplicable = map[string]string{
	"N01": "A statement about elapsed time and fairness between goroutines; no static bound on scheduling or callback run time is in reach. Its static core, that no callback or send runs under a lock that others need, is claimed as K03.",
	"N02": "Liveness under an assumption on the network's infinite behaviour; a static argument cannot quantify over network histories. The local steps it rests on (recorded until acknowledged, retransmit timer re-armed, duplicates acknowledged) are claimed as C02 and C03.",
	"N03": "A numerical convergence statement about measured times; the quantities exist only at run time. That each event is counted once is claimed as M05.",
	"N04": "The code does not implement deadlines (SetDeadline and its relatives do nothing and report success), so there is no mechanism to analyse; when a deadline passes is a run-time quantity. The missing feature is described in DESIGN.md.",
}

func manifest() {
	type chk struct {
		Property  string `json:"property"`
		Quick     string `json:"quick_cmd"`
		Thorough  string `json:"thorough_cmd"`
		Technique string `json:"technique"`
		Level     string `json:"level"`
		Note      string `json:"level_note"`
	}
	type na struct {
		Property string `json:"property"`
		Reason   string `json:"reason"`
	}
	have := map[string]*Check{}
	for _, c := range checks {
		have[c.ID] = c
	}
	f, err := os.Open(filepath.Join(verifDir, "properties.jsonl"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var cs []chk
	nas := []na{}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var p struct {
			ID string `json:"id"`
		}
		if json.Unmarshal(sc.Bytes(), &p) != nil || p.ID == "" {
			continue
		}
		c := have[p.ID]
		if c == nil {
			r := notApplicable[p.ID]
			if r == "" {
				r = "No check that decides it statically has been built yet."
			}
			nas = append(nas, na{p.ID, r})
			continue
		}
		note := c.Note
		if len(c.Assumptions) > 0 {
			note += " Assumes: " + strings.Join(c.Assumptions, "; ") + "."
		}
		if c.NotCovered != "" {
			note += " Not covered: " + c.NotCovered
		}
		cs = append(cs, chk{p.ID, "./check.sh " + p.ID, "./check.sh " + p.ID, c.Technique, c.Level, strings.TrimSpace(note)})
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Property < cs[j].Property })
	out := map[string]interface{}{
		"version": 1, "setup_cmd": "./check.sh -setup", "checks": cs, "not_applicable": nas,
		"notes": "Every check analyses the source under /repo with /verif/trucheck and runs no code of it. No hooks are needed in /repo.",
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(verifDir, "MANIFEST.json"), append(b, '\n'), 0644)
}
