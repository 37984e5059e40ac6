package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation.
type Finding struct {
	Key   string // stable: rule and construct, no line numbers
	Where string
	Msg   string
}

// Report collects what one check analysed and found.
type Report struct {
	Prop        string
	Rule        string
	Obligations int
	Counts      map[string]int
	Samples     []string
	Findings    []Finding
	Assumptions []string
	Fns         map[string]bool
	seen        map[string]bool
	start       time.Time
}

func newReport(prop, rule string) *Report {
	return &Report{Prop: prop, Rule: rule, Counts: map[string]int{}, Fns: map[string]bool{}, seen: map[string]bool{}, start: time.Now()}
}

func (r *Report) add(key, where, format string, a ...any) {
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{key, where, fmt.Sprintf(format, a...)})
}

func (r *Report) ob(n int) { r.Obligations += n }

func (r *Report) count(k string, n int) { r.Counts[k] += n }

func (r *Report) sample(format string, a ...any) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// floor fails the check when fewer instances were found than were confirmed by
// reading: a rule that matches nothing passes vacuously.
func (r *Report) floor(k string, min int) {
	if r.Counts[k] < min {
		r.add("floor/"+k, "-", "only %d %s found, at least %d expected: the analysis no longer sees the code it decides", r.Counts[k], k, min)
	}
}

func (r *Report) engine(e *Eng) {
	r.count("abstract states", e.configs)
	r.count("abstract instructions", e.Steps)
	for f := range e.fnsSeen {
		r.Fns[fnName(f)] = true
	}
	for _, u := range e.Undecided {
		r.add("undecided/"+u, "-", "undecided: %s", u)
	}
}

type known struct{ prop, key, text string }

func loadKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		f := strings.SplitN(l, " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		out = append(out, known{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out
}

func keyToken(k string) string { return strings.ReplaceAll(k, " ", "_") }

// finish prints the verdict and writes the evidence file; it returns the exit code.
func (r *Report) finish(tier, evDir, knownFile string) int {
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	kn := map[string]string{}
	for _, k := range loadKnown(knownFile) {
		if k.prop == r.Prop {
			kn[k.key] = k.text
		}
	}
	rep := ""
	nviol := 0
	for _, f := range r.Findings {
		line := fmt.Sprintf("%s: %s: %s [key=%s]", f.Where, r.Prop, f.Msg, keyToken(f.Key))
		if t, ok := kn[keyToken(f.Key)]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Prop, t, f.Where)
			continue
		}
		nviol++
		fmt.Println(line)
		rep += line + "\n"
	}
	fns := make([]string, 0, len(r.Fns))
	for f := range r.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":         r.Rule,
		"obligations_checked": r.Obligations,
		"functions_analysed":  len(fns),
		"samples":             r.Samples,
	}
	for k, v := range r.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	if len(fns) > 60 {
		fns = fns[:60]
	}
	cov["functions"] = fns
	var fl []string
	for _, f := range r.Findings {
		fl = append(fl, f.Where+": "+f.Msg)
	}
	if len(fl) > 0 {
		cov["findings"] = fl
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed(), "level": "other",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": nviol,
	}
	if len(r.Assumptions) > 0 {
		ev["assumptions"] = r.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(evDir, 0o755)
	if err := os.WriteFile(filepath.Join(evDir, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var cs []string
	for k, v := range r.Counts {
		cs = append(cs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(cs)
	fmt.Printf("%s: %d obligations, %d functions, %s, %d unlisted finding(s), %.1fs\n", r.Prop, r.Obligations, len(r.Fns), strings.Join(cs, ", "), nviol, time.Since(r.start).Seconds())
	if nviol > 0 {
		path := filepath.Join(evDir, r.Prop+".violations.txt")
		os.WriteFile(path, []byte(rep), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
		return 1
	}
	os.Remove(filepath.Join(evDir, r.Prop+".violations.txt"))
	return 0
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}
