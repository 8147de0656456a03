package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violated obligation. Key identifies rule and construct, never
// a line.
type Finding struct {
	Rule string `json:"rule"`
	Key  string `json:"key"`
	Msg  string `json:"message"`
	Tags string `json:"build_tags"`
}

// Report collects what one property's check analysed.
type Report struct {
	Prop     string
	findings map[string]Finding
	order    []string
	rules    map[string]*ruleStat
	ruleOrd  []string
	notes    []string
	variant  string
}

type ruleStat struct {
	Name       string
	Desc       string
	Obl        map[string]bool // obligation keys
	Bad        map[string]bool
	Samples    []string
	MinPerTags map[string]int
	Min        int
	perTags    map[string]int
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, findings: map[string]Finding{}, rules: map[string]*ruleStat{}}
}

// Rule declares a rule and the least number of obligations it must find on
// every build variant it is run on.
func (r *Report) Rule(name, desc string, min int) {
	if _, ok := r.rules[name]; !ok {
		r.rules[name] = &ruleStat{Name: name, Desc: desc, Obl: map[string]bool{}, Bad: map[string]bool{}, Min: min, perTags: map[string]int{}}
		r.ruleOrd = append(r.ruleOrd, name)
	}
	if _, ok := r.rules[name].perTags[r.variant]; !ok {
		r.rules[name].perTags[r.variant] = 0
	}
}

// Ok records a discharged obligation.
func (r *Report) Ok(rule, key string) {
	rs := r.rules[rule]
	if rs == nil {
		panic("undeclared rule " + rule)
	}
	rs.Obl[key] = true
	rs.perTags[r.variant]++
	if len(rs.Samples) < 6 {
		for _, s := range rs.Samples {
			if s == key {
				return
			}
		}
		rs.Samples = append(rs.Samples, key)
	}
}

// Bad records a violated one.
func (r *Report) Bad(rule, key, format string, args ...interface{}) {
	rs := r.rules[rule]
	if rs == nil {
		panic("undeclared rule " + rule)
	}
	rs.Obl[key] = true
	rs.Bad[key] = true
	rs.perTags[r.variant]++
	id := rule + "|" + key
	if _, ok := r.findings[id]; ok {
		return
	}
	r.findings[id] = Finding{Rule: rule, Key: key, Msg: fmt.Sprintf(format, args...), Tags: r.variant}
	r.order = append(r.order, id)
}

// Check records an obligation with its outcome.
func (r *Report) Check(ok bool, rule, key, format string, args ...interface{}) {
	if ok {
		r.Ok(rule, key)
	} else {
		r.Bad(rule, key, format, args...)
	}
}

func (r *Report) floors() {
	for _, n := range r.ruleOrd {
		rs := r.rules[n]
		var tags []string
		for t := range rs.perTags {
			tags = append(tags, t)
		}
		sort.Strings(tags)
		for _, t := range tags {
			if rs.perTags[t] < rs.Min {
				r.variant = t
				r.Bad(n, "instance-floor", "rule found %d instances (tags %q), at least %d expected: the code it is anchored in was not recognised, so the property is undecided", rs.perTags[t], t, rs.Min)
			}
		}
	}
}

type knownFinding struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path string) ([]knownFinding, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var doc struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		return nil, err
	}
	return doc.Findings, nil
}

// finish writes the evidence and prints the verdict; it returns the exit code.
func (r *Report) finish(verif, repo string, start time.Time, level, explanation string, assumptions []string, variants []string, stats map[string]interface{}) int {
	r.floors()
	known, err := loadKnown(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		r.Rule("known-findings", "the known-findings file parses", 0)
		r.Bad("known-findings", "file", "%v", err)
	}
	suppressed := map[string]knownFinding{}
	for _, k := range known {
		if k.Property == r.Prop && k.Status == "known" {
			suppressed[k.Rule+"|"+k.Key] = k
		}
	}
	var viol []Finding
	var knownHit []knownFinding
	for _, id := range r.order {
		if k, ok := suppressed[id]; ok {
			knownHit = append(knownHit, k)
			continue
		}
		viol = append(viol, r.findings[id])
	}
	obligations, discharged := 0, 0
	var ruleEv []map[string]interface{}
	for _, n := range r.ruleOrd {
		rs := r.rules[n]
		obligations += len(rs.Obl)
		discharged += len(rs.Obl) - len(rs.Bad)
		sort.Strings(rs.Samples)
		ruleEv = append(ruleEv, map[string]interface{}{
			"rule": n, "statement": rs.Desc, "obligations": len(rs.Obl), "violated": len(rs.Bad),
			"floor": rs.Min, "samples": rs.Samples,
		})
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation": explanation,
		"obligations": obligations,
		"discharged":  discharged,
		"checker_cmd": "sojucheck -property " + r.Prop,
		"trusted_base": []string{"go/types, golang.org/x/tools/go/ssa", "the call resolution, path search and rule tables in /verif/sa",
			"dependencies behave as their documentation says (their bodies are not analysed)"},
		"rules":          ruleEv,
		"build_variants": variants,
	}
	for k, v := range stats {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": assumptions,
	}
	if len(viol) > 0 {
		ev["findings"] = viol
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations over %d rules, %d discharged (%.1fs)\n", r.Prop, obligations, len(r.ruleOrd), discharged, time.Since(start).Seconds())
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s]\n", r.Prop, k.What, k.Rule, k.Key)
	}
	if len(viol) == 0 {
		return 0
	}
	replay := filepath.Join(dir, r.Prop+".violation.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "rule=%s construct=%s\n  %s\n", f.Rule, f.Key, f.Msg)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
