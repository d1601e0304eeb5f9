package main

// Verdicts, known findings and evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// known findings: lines "property=<id> rule=<rule> construct=<construct> | text"
// "fixed: ..." lines document repairs and suppress nothing.
type finding struct{ id, rule, construct, text string }

func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(*verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		head, text, _ := strings.Cut(l, " | ")
		var f finding
		f.text = text
		for _, w := range strings.Split(head, ";") {
			k, v, _ := strings.Cut(strings.TrimSpace(w), "=")
			switch k {
			case "property":
				f.id = v
			case "rule":
				f.rule = v
			case "construct":
				f.construct = v
			}
		}
		r = append(r, f)
	}
	return r
}

func report(ck *check, results []*unitResult, wall time.Duration) int {
	id := ck.id
	byRule := map[string]int{}
	counts := map[string]int{}
	fns := map[string]bool{}
	var all, bads []ob
	unitSecs := map[string]float64{}
	for _, r := range results {
		unitSecs[r.Unit] = float64(int(r.Seconds*100)) / 100
		for _, o := range r.Obs {
			all = append(all, o)
			byRule[o.Rule]++
			if !o.OK {
				bads = append(bads, o)
			}
		}
		for k, n := range r.Counts {
			counts[k] += n
		}
		for _, f := range r.Funcs {
			fns[f] = true
		}
	}
	if *only == "" {
		var ks []string
		for k := range ck.minimum {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if byRule[k] < ck.minimum[k] && len(bads) == 0 {
				o := ob{"coverage", k, "", false, fmt.Sprintf("only %d instances of the rule were found, expected at least %d: the anchor no longer matches the source", byRule[k], ck.minimum[k])}
				all, bads = append(all, o), append(bads, o)
			}
		}
	}
	var fresh, known []ob
	kf := knownFindings()
	for _, o := range bads {
		hit := false
		for _, f := range kf {
			if f.id == id && f.rule == o.Rule && f.construct == o.Construct {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
			}
		}
		if hit {
			known = append(known, o)
		} else {
			fresh = append(fresh, o)
		}
	}
	dir := filepath.Join(*verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var samples []any
	step := len(all)/6 + 1
	for i := 0; i < len(all); i += step {
		samples = append(samples, all[i])
	}
	n := len(all) - len(bads)
	cov := map[string]any{
		"explanation":         ck.rule,
		"obligations_by_rule": byRule,
		"obligations":         len(all),
		"discharged":          n,
		"units":               len(results),
		"unit_seconds":        unitSecs,
		"functions_analysed":  fl,
		"samples":             samples,
	}
	for k, v := range counts {
		cov[k] = v
	}
	level := ck.level
	if level == "" {
		level = "other"
	}
	if level == "translation_validation" {
		cov["programs"] = len(results)
		cov["disagreements_checked"] = len(all)
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	if len(fresh) > 0 {
		cov["violations"] = fresh
	}
	ev := map[string]any{
		"property": id, "tier": tierOf(), "seed": seedOf(), "level": level, "coverage": cov, "wall_s": float64(int(wall.Seconds()*100)) / 100,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	if *dbgDiff {
		for _, o := range all {
			fmt.Printf("  %v %s %s %s\n", o.OK, o.Rule, o.Construct, o.Where)
		}
	}
	rep := filepath.Join(dir, id+".violations.txt")
	os.Remove(rep)
	if len(fresh) == 0 {
		fmt.Printf("%s: %d obligations in %d units decided, %d hold, %d known findings (%.1fs)\n", id, len(all), len(results), n, len(known), wall.Seconds())
		return 0
	}
	var sb strings.Builder
	for _, o := range fresh {
		fmt.Fprintf(&sb, "%s: rule %s: %s\n    at %s\n    %s\n", id, o.Rule, o.Construct, o.Where, strings.ToValidUTF8(o.Why, "?"))
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 6000 {
		s = strings.ToValidUTF8(s[:6000], "") + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}
