package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation: a concrete construct that breaks a rule.
// Key identifies it by rule and construct (never by line number).
type Finding struct {
	Rule   string `json:"rule"`
	Key    string `json:"key"`
	Pos    string `json:"pos"`
	Detail string `json:"detail"`
}

// Report collects what one property check analysed and decided.
type Report struct {
	Prop     string
	Findings []Finding
	Obls     map[string]int // obligations checked per rule
	Min      map[string]int // confirmed minimum number of obligations per rule
	Samples  map[string][]string
	Notes    []string
	Skipped  []string // constructs analysed but outside the rule's recognised forms
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Obls: map[string]int{}, Min: map[string]int{}, Samples: map[string][]string{}}
}

// ob records that one obligation of the rule was examined.
func (r *Report) ob(rule, what string) {
	r.Obls[rule]++
	if len(r.Samples[rule]) < 12 {
		r.Samples[rule] = append(r.Samples[rule], what)
	}
}

// bad records a violated obligation.
func (r *Report) bad(rule, key, pos, detail string, a ...interface{}) {
	if len(a) > 0 {
		detail = fmt.Sprintf(detail, a...)
	}
	for _, f := range r.Findings {
		if f.Rule == rule && f.Key == key && f.Detail == detail {
			return
		}
	}
	r.Findings = append(r.Findings, Finding{rule, key, pos, detail})
}

func (r *Report) skip(f string, a ...interface{}) {
	r.Skipped = append(r.Skipped, fmt.Sprintf(f, a...))
}

// min declares how many instances of a rule the tree is known to contain.
func (r *Report) min(rule string, n int) { r.Min[rule] = n }

type known struct{ prop, rule, key, text string }

// readKnown parses the known-findings file. Lines:
//
//	finding: property=<id> rule=<rule> key=<key> :: <description>
//	fixed: property=<id> <commit> <what failed>
func readKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		head, text, ok := strings.Cut(l, " :: ")
		if !ok {
			return nil, fmt.Errorf("bad known-findings line: %q", l)
		}
		k := known{text: text}
		p, rest, _ := strings.Cut(head, " ")
		k.prop = strings.TrimPrefix(p, "property=")
		ru, ke, _ := strings.Cut(rest, " ")
		k.rule = strings.TrimPrefix(ru, "rule=")
		k.key = strings.TrimPrefix(ke, "key=")
		out = append(out, k)
	}
	return out, sc.Err()
}

// finish prints the verdict, writes the evidence and the replay file and
// returns the exit code.
func (r *Report) finish(verif, tier string, seed int, start time.Time, meta map[string]interface{}) int {
	for rule, n := range r.Min {
		if r.Obls[rule] < n {
			r.bad("coverage", rule, "-", "rule %q matched %d construct(s), at least %d are known to exist: the anchors it analyses are gone", rule, r.Obls[rule], n)
		}
	}
	kn, err := readKnown(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		r.bad("setup", "known_findings", "-", "%v", err)
	}
	used := map[int]bool{}
	var viol, knownHit []Finding
next:
	for _, f := range r.Findings {
		for i, k := range kn {
			if k.prop == r.Prop && k.rule == f.Rule && k.key == f.Key {
				if !used[i] {
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s] %s\n", r.Prop, f.Pos, f.Rule, f.Key, k.text)
				}
				used[i] = true
				knownHit = append(knownHit, f)
				continue next
			}
		}
		viol = append(viol, f)
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Rule+viol[i].Key < viol[j].Rule+viol[j].Key })

	total := 0
	rules := []string{}
	for k, n := range r.Obls {
		total += n
		rules = append(rules, k)
	}
	sort.Strings(rules)
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	cov := map[string]interface{}{
		"explanation": propText[r.Prop].rule,
		"obligations": total,
		"discharged":  total - len(r.Findings),
		"checker_cmd": "./run.sh " + r.Prop + " " + tier,
		"per_rule":    r.Obls,
		"samples":     r.Samples,
	}
	if cov["discharged"].(int) < 0 {
		cov["discharged"] = 0
	}
	for k, v := range meta {
		cov[k] = v
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	if len(r.Skipped) > 0 {
		cov["outside_recognised_forms"] = r.Skipped
	}
	if len(knownHit) > 0 {
		cov["known_findings"] = knownHit
	}
	ev := map[string]interface{}{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage":    cov,
		"assumptions": append([]string{}, commonAssumptions...),
		"violations":  len(viol),
		"wall_s":      time.Since(start).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d obligations over %d rules, %d violated (%d known)\n", r.Prop, total, len(rules), len(r.Findings), len(knownHit))
	for _, k := range rules {
		fmt.Printf("  %-28s %d\n", k, r.Obls[k])
	}
	if len(viol) == 0 {
		return 0
	}
	replay := filepath.Join("evidence", r.Prop+".violation.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Key, f.Detail)
	}
	os.WriteFile(filepath.Join(verif, replay), []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}

var commonAssumptions = []string{
	"the Go type checker and golang.org/x/tools SSA construction are correct",
	"go.dedis.ch/kyber and go.dedis.ch/onet behave as their documentation says",
	"only non-test files of the module are analysed, as built on linux/amd64 with CGO disabled",
}
