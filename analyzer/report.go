package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation, identified by Key (rule and construct,
// never a line number).
type Finding struct {
	Key  string // rule|construct|detail
	Pos  string
	Text string
}

// Report collects what one check analysed.
type Report struct {
	Property    string
	obligations map[string]int // per rule: obligations examined
	discharged  map[string]int
	findings    []Finding
	samples     []string
	counts      map[string]int
	notes       []string
	explanation string
	assumptions []string
}

func newReport(id string) *Report {
	return &Report{Property: id, obligations: map[string]int{}, discharged: map[string]int{}, counts: map[string]int{}}
}

// OK records a discharged obligation.
func (r *Report) OK(rule, sample string, a ...interface{}) {
	r.obligations[rule]++
	r.discharged[rule]++
	if len(r.samples) < 400 {
		r.samples = append(r.samples, rule+": "+fmt.Sprintf(sample, a...))
	}
}

// Bad records a violated obligation.
func (r *Report) Bad(rule, construct, pos, format string, a ...interface{}) {
	r.obligations[rule]++
	k := rule + "|" + construct
	for _, f := range r.findings {
		if f.Key == k && f.Pos == pos {
			return
		}
	}
	r.findings = append(r.findings, Finding{Key: k, Pos: pos, Text: fmt.Sprintf(format, a...)})
}

// Check records an obligation either way.
func (r *Report) Check(ok bool, rule, construct, pos, format string, a ...interface{}) bool {
	if ok {
		r.OK(rule, "%s %s", construct, pos)
	} else {
		r.Bad(rule, construct, pos, format, a...)
	}
	return ok
}

// Count records how many things of a kind were analysed.
func (r *Report) Count(what string, n int) { r.counts[what] += n }

// Floor fails the check when fewer instances than confirmed by hand were seen.
func (r *Report) Floor(what string, min int) {
	n, ok := r.counts[what]
	if !ok {
		n = r.obligations[what]
	}
	if n < min {
		r.Bad("floor", what, "-", "only %d instances of %q were found, at least %d are expected: the rule no longer sees the code it is about", n, what, min)
	}
}

type known struct{ prop, key, text string }

func loadKnown(path string) (kn []known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// finding: property=<id> key=<key> :: text
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			continue
		}
		kn = append(kn, known{l[:i], l[i+5 : j], l[j+4:]})
	}
	return kn
}

// finish prints the outcome, writes evidence, and returns the exit code.
func (r *Report) finish(verif, tier string, seed int, start time.Time, wErr string) int {
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var viol []Finding
	seenKnown := map[string]bool{}
	for _, f := range r.findings {
		matched := false
		for _, k := range kn {
			if k.prop == r.Property && k.key == f.Key {
				matched = true
				if !seenKnown[k.key] {
					seenKnown[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s]\n", r.Property, k.text, f.Pos, f.Key)
				}
			}
		}
		if !matched {
			viol = append(viol, f)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].Key < viol[j].Key })
	ob, di := 0, 0
	rules := []string{}
	for k, n := range r.obligations {
		ob += n
		di += r.discharged[k]
		rules = append(rules, k)
	}
	sort.Strings(rules)
	perRule := map[string]interface{}{}
	for _, k := range rules {
		perRule[k] = map[string]int{"obligations": r.obligations[k], "discharged": r.discharged[k]}
	}
	samples := r.samples
	if len(samples) > 40 {
		step := len(samples) / 40
		var s []string
		for i := 0; i < len(samples) && len(s) < 40; i += step {
			s = append(s, samples[i])
		}
		samples = s
	}
	if samples == nil {
		samples = []string{}
	}
	vt := []string{}
	for _, v := range viol {
		vt = append(vt, v.Pos+" ["+v.Key+"] "+v.Text)
	}
	ev := map[string]interface{}{
		"property": r.Property, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation": r.explanation,
			"obligations": ob, "discharged": di,
			"rules": perRule, "analysed": r.counts, "samples": samples,
			"violations": vt, "known_findings_seen": len(seenKnown),
			"source_digest": repoDigest, "not_decided": append([]string{}, r.notes...),
		},
		"assumptions": append([]string{}, r.assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, r.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
	}
	fmt.Printf("%s: %d obligations over %d rules, %d discharged, %d violations\n", r.Property, ob, len(rules), di, len(viol))
	if len(viol) == 0 {
		os.Remove(filepath.Join(evdir, r.Property+".violations.txt"))
		return 0
	}
	rp := filepath.Join(evdir, r.Property+".violations.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "Static analysis of %s found these violations of %s.\nReproduce: cd /verif && ./run.sh %s\n\n", "/repo", r.Property, r.Property)
	for _, v := range viol {
		fmt.Fprintf(&sb, "%s\n  rule and construct: %s\n  %s\n\n", v.Pos, v.Key, v.Text)
		fmt.Printf("  %s [%s] %s\n", v.Pos, v.Key, v.Text)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, rp)
	return 1
}

var repoDigest string

func digestFiles(files []string) string {
	sort.Strings(files)
	h := sha256.New()
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err == nil {
			fmt.Fprintf(h, "%s %d\n", f, len(b))
			h.Write(b)
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil))[:16]
}
