package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/checker/load"
)

// Report collects what a check decided.
type Report struct {
	Prop, Tier string
	W          *World
	P          *load.Program
	start      time.Time
	Rules      []string
	oblig      map[string]int
	samples    map[string]string
	counts     map[string]int
	findings   map[string]*Finding
	fns        map[string]bool
	mu         sync.Mutex
}

// Finding is one violated (or undecided) obligation.
type Finding struct {
	Key   string   `json:"key"`
	Where string   `json:"where"`
	Msg   string   `json:"what"`
	Trace []string `json:"trace,omitempty"`
}

// NewReport starts a check.
func NewReport(prop, tier string) *Report {
	return &Report{Prop: prop, Tier: tier, start: time.Now(), oblig: map[string]int{}, samples: map[string]string{}, counts: map[string]int{}, findings: map[string]*Finding{}, fns: map[string]bool{}}
}

// Thorough tells whether the deep tier was requested.
func (r *Report) Thorough() bool { return r.Tier == "thorough" }

// Rule documents a rule that was applied.
func (r *Report) Rule(s string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Rules = append(r.Rules, s)
}

// OK records a discharged obligation of a kind.
func (r *Report) OK(kind, what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.oblig[kind]++
	if r.samples[kind] == "" {
		r.samples[kind] = what
	}
}

// Count adds to a coverage counter.
func (r *Report) Count(k string, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.counts[k] += n
}

// Fail records a violated obligation. key names the rule and the construct.
func (r *Report) Fail(key, where, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.findings[key] == nil {
		r.findings[key] = &Finding{Key: key, Where: where, Msg: fmt.Sprintf(format, args...)}
	}
}

// enough tells whether the verdict is clear and time is short.
func (r *Report) enough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.findings) > 0 && time.Since(r.start) > 240*time.Second
}

// Assert records OK or Fail.
func (r *Report) Assert(ok bool, kind, key, where, format string, args ...any) bool {
	if ok {
		r.OK(kind, key)
		return true
	}
	r.Fail(kind+": "+key, where, format, args...)
	return false
}

// Fns records the analysed functions.
func (r *Report) Fns(names ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, n := range names {
		r.fns[n] = true
	}
}

type known struct{ prop, key, what string }

// loadKnown reads "known: property=<id> key=<key> :: <what>" lines.
func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		id, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimPrefix(rest, "key=")
		key, what, _ := strings.Cut(rest, " :: ")
		out = append(out, known{id, strings.TrimSpace(key), what})
	}
	return out
}

// Finish writes the evidence and prints the verdict; it returns the exit code.
func (r *Report) Finish(verif string) int {
	r.mu.Lock() // for good: nothing is recorded any more
	var keys []string
	for k := range r.findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []*Finding
	var knownHit []string
	for _, k := range keys {
		f := r.findings[k]
		hit := false
		for _, x := range kn {
			if x.prop == r.Prop && x.key == f.Key {
				hit = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, x.what)
				knownHit = append(knownHit, f.Key)
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	total := 0
	for _, n := range r.oblig {
		total += n
	}
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var smp []string
	for k, s := range r.samples {
		smp = append(smp, k+": "+s)
	}
	sort.Strings(smp)
	if len(smp) > 40 {
		smp = smp[:40]
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": r.Prop,
		"tier":     r.Tier,
		"seed":     seed,
		"level":    "other",
		"wall_s":   time.Since(r.start).Seconds(),
		"coverage": map[string]any{
			"explanation":           "Static analysis of the source of /repo (go/types + go/ssa, abstract interpretation over a term domain; nothing is executed). Rules: " + strings.Join(r.Rules, " | "),
			"rules":                 r.Rules,
			"obligations":           total + len(keys),
			"discharged":            total,
			"obligations_by_rule":   r.oblig,
			"counts":                r.counts,
			"functions_analysed":    len(fns),
			"functions":             fns,
			"samples":               smp,
			"violations":            viol,
			"known_findings_active": knownHit,
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s [%s]: %d obligations discharged, %d violated, %d functions, %.1fs\n", r.Prop, r.Tier, total, len(keys), len(fns), time.Since(r.start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.Prop+".violations.txt")
	var sb strings.Builder
	for _, f := range viol {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", f.Key, f.Where, f.Msg)
		for _, t := range f.Trace {
			fmt.Fprintf(&sb, "    %s\n", t)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rp)
	return 1
}
