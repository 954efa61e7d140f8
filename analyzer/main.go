// Command check decides the properties of /verif/properties.jsonl for the
// source tree in /repo by static analysis. It never runs the code under test.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/analyzer/vg"
)

var (
	repoDir = flag.String("repo", "/repo", "source tree")
	refDir  = flag.String("ref", "", "reference drivers")
	only    = flag.String("only", "", "only this obligation (development)")
	dump    = flag.Bool("dump", false, "print the value graphs (development)")
	depth   = flag.Int("depth", 0, "print depth")
	jobs    = flag.Int("j", 0, "parallel obligations")
	limit   = flag.Int("timeout", 840, "seconds before everything open counts as undecided")
	verbose = flag.Bool("v", false, "print every obligation")
)

const hidden = "zzverifref"

// An Obligation is one thing a rule had to establish about one construct.
type Obligation struct {
	Rule      string         `json:"rule"`
	Construct string         `json:"construct"`
	OK        bool           `json:"ok"`
	Undecided bool           `json:"undecided,omitempty"`
	Pos       string         `json:"pos,omitempty"`
	Detail    string         `json:"detail,omitempty"`
	Stats     map[string]any `json:"stats,omitempty"`
	Funcs     []string       `json:"-"`
}

func (o *Obligation) Key() string { return o.Rule + ":" + o.Construct }

// A Rule analyses the loaded program.
type Rule struct {
	Name string
	Text string
	Run  func(*Prog) []*Obligation
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	exe, _ := os.Executable()
	verif := filepath.Dir(filepath.Dir(exe))
	if *refDir == "" {
		*refDir = filepath.Join(verif, "ref")
	}
	id := strings.ToUpper(flag.Arg(0))
	p, ok := properties[id]
	if !ok {
		fmt.Printf("unknown property %q\n", id)
		os.Exit(2)
	}
	t0 := time.Now()
	if os.Getenv("VERIF_WORKER") == "" && !*dump {
		os.Exit(supervise(id, verif, p, t0))
	}
	debug.SetMaxStack(4 << 30)
	r := &report{id: id, verif: verif, t0: t0, prop: p}
	go func() {
		time.Sleep(time.Duration(*limit) * time.Second)
		r.add(&Obligation{Rule: "time", Construct: "check", Undecided: true, Detail: fmt.Sprintf("not decided within %d seconds", *limit)})
		r.finish()
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.add(&Obligation{Rule: "analysis", Construct: "check", Undecided: true, Detail: fmt.Sprintf("the analysis failed: %v\n%s", e, debug.Stack())})
			}
		}()
		pr, err := load(id, p)
		if err != nil {
			r.add(&Obligation{Rule: "load", Construct: "/repo", Undecided: true, Detail: err.Error()})
			return
		}
		r.pr = pr
		for _, rule := range p.Rules {
			if rule.Run == nil {
				continue // decided with another one
			}
			obs := rule.Run(pr)
			if len(obs) == 0 && *only == "" {
				obs = []*Obligation{{Rule: rule.Name, Construct: "none", Undecided: true, Detail: "the rule found nothing to analyse"}}
			}
			for _, o := range obs {
				r.add(o)
			}
		}
	}()
	r.finish()
}

// supervise runs the analysis in a child, so that even a crash of the
// analysis is reported as undecided.
func supervise(id, verif string, p *Property, t0 time.Time) int {
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	cmd := exec.Command(exe, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_WORKER=1")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	cmd.Run()
	os.Stdout.Write(out.Bytes())
	code := cmd.ProcessState.ExitCode()
	if code == 0 || code == 1 && strings.Contains(out.String(), "VIOLATION property="+id+" ") {
		return code
	}
	e := errOut.String()
	if len(e) > 3000 {
		e = e[:3000]
	}
	r := &report{id: id, verif: verif, t0: t0, prop: p}
	r.add(&Obligation{Rule: "analysis", Construct: "check", Undecided: true, Detail: "the analysis ended abnormally\n" + e})
	r.finish()
	return 1
}

type report struct {
	mu    sync.Mutex
	id    string
	verif string
	t0    time.Time
	prop  *Property
	pr    *Prog
	obs   []*Obligation
}

func (r *report) add(o *Obligation) {
	r.mu.Lock()
	r.obs = append(r.obs, o)
	r.mu.Unlock()
	if *verbose || *dump {
		s := "ok  "
		if !o.OK {
			s = "FAIL"
		}
		fmt.Printf("%s %s %v\n", s, o.Key(), o.Stats)
	}
}

func (r *report) finish() {
	r.mu.Lock() // never released: the process ends here
	known := r.known()
	evDir := filepath.Join(r.verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	var bad []*Obligation
	rules := map[string]int{}
	funcs := map[string]bool{}
	discharged, undecided := 0, 0
	var findings []string
	for _, o := range r.obs {
		rules[o.Rule]++
		for _, f := range o.Funcs {
			funcs[f] = true
		}
		if o.OK {
			discharged++
			continue
		}
		if o.Undecided {
			undecided++
		} else if t, ok := known[o.Key()]; ok {
			findings = append(findings, t)
			continue
		}
		bad = append(bad, o)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	texts := map[string]string{}
	if r.prop != nil {
		for _, x := range r.prop.Rules {
			texts[x.Name] = x.Text
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"explanation":         "Every obligation is decided from the type-checked source and SSA of the tree in " + *repoDir + " as it is now; nothing is executed. " + r.prop.Explain,
		"rules":               texts,
		"obligations":         len(r.obs),
		"discharged":          discharged,
		"undecided":           undecided,
		"obligations_by_rule": rules,
		"functions_analysed":  len(fl),
		"functions":           fl,
		"details":             r.obs,
	}
	if r.pr != nil {
		cov["source_sha256"] = r.pr.Digest
		cov["source_files"] = r.pr.Files
	}
	ev := map[string]any{
		"property": r.id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.prop.Assume, "wall_s": time.Since(r.t0).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, r.id+".json"), append(b, '\n'), 0o644)
	for _, t := range findings {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, t)
	}
	rel := filepath.Join("evidence", r.id+".violation.txt")
	os.Remove(filepath.Join(r.verif, rel))
	if len(r.obs) == 0 {
		bad = append(bad, &Obligation{Rule: "none", Construct: "none", Undecided: true, Detail: "nothing was analysed"})
	}
	if len(bad) == 0 {
		fmt.Printf("%s: %d obligations, all discharged, %d functions, %.1fs\n", r.id, len(r.obs), len(fl), time.Since(r.t0).Seconds())
		os.Exit(0)
	}
	var sb strings.Builder
	for _, o := range bad {
		kind := "violated"
		if o.Undecided {
			kind = "undecided (counts as a violation)"
		}
		fmt.Fprintf(&sb, "property %s: %s\nrule: %s\n  %s\nconstruct: %s\nat: %s\n%s\n\n", r.id, kind, o.Rule, texts[o.Rule], o.Construct, o.Pos, o.Detail)
	}
	os.WriteFile(filepath.Join(r.verif, rel), []byte(sb.String()), 0o644)
	for _, o := range bad {
		d := o.Detail
		if len(d) > 400 {
			d = d[:400] + "..."
		}
		fmt.Printf("%s %s\n  at %s\n  %s\n", r.id, o.Key(), o.Pos, strings.ReplaceAll(d, "\n", "\n  "))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rel)
	os.Exit(1)
}

// known reads the findings of KNOWN_FINDINGS: "finding: property=ID key=RULE:CONSTRUCT text".
func (r *report) known() map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.verif, "KNOWN_FINDINGS"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+r.id+" key=")
		if !ok {
			continue
		}
		k, t, _ := strings.Cut(rest, " ")
		m[k] = t
	}
	return m
}

// pairsRule compares the driver pairs of ref/<id>.
func pairsRule(p *Prog) []*Obligation {
	n := *jobs
	if n == 0 {
		n = runtime.NumCPU()
	}
	sem := make(chan bool, n)
	var wg sync.WaitGroup
	out := make([]*vg.PairResult, len(p.Pairs))
	for i := range p.Pairs {
		if *only != "" && p.Pairs[i].Name != *only {
			continue
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			out[i] = vg.RunPair(p.SSA, p.Pairs[i], vg.Options{Repo: modPath, Hide: hidden, Dump: *dump, Depth: *depth})
		}()
	}
	wg.Wait()
	var obs []*Obligation
	for _, r := range out {
		if r == nil {
			continue
		}
		o := &Obligation{Rule: "equiv", Construct: r.Name, OK: r.OK, Undecided: r.Undecided}
		o.Stats = map[string]any{"functions": len(r.Fns), "calls_inlined": r.Calls, "loops_summarised": r.Loops,
			"loops_unrolled": r.Unrolled, "branches": r.Branches, "graph_nodes": r.Nodes, "case_splits": r.Splits, "seconds": float64(int(r.Secs*100)) / 100}
		for f := range r.Fns {
			o.Funcs = append(o.Funcs, f)
		}
		if !r.OK {
			o.Pos = p.SSA.Fset.Position(r.Pos).String()
			o.Detail = r.Why
			if !r.Undecided {
				o.Detail += "\ncode:      " + r.ImplT + "\nreference: " + r.RefT
			}
		}
		obs = append(obs, o)
	}
	return obs
}

// siteRule decides the obligations of the driver runs of ref/<id>.
func siteRule(want func(rule string) bool) func(p *Prog) []*Obligation {
	return func(p *Prog) []*Obligation {
		type out struct {
			res   *vg.PairResult
			sites []*vg.Site
		}
		outs := make([]out, len(p.Runs))
		var wg sync.WaitGroup
		for i, r := range p.Runs {
			if *only != "" && r.Name != *only {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				res, sites := vg.RunObls(p.SSA, r, vg.Options{Repo: modPath, Hide: hidden}, want)
				outs[i] = out{res, sites}
			}()
		}
		wg.Wait()
		var obs []*Obligation
		for _, x := range outs {
			if x.res == nil {
				continue
			}
			r := x.res
			o := &Obligation{Rule: "reach", Construct: r.Name, OK: r.OK, Undecided: r.Undecided, Detail: r.Why}
			n := 0
			for _, s := range x.sites {
				n += s.N
			}
			o.Stats = map[string]any{"functions": len(r.Fns), "calls_inlined": r.Calls, "loops_summarised": r.Loops, "loops_unrolled": r.Unrolled,
				"branches": r.Branches, "graph_nodes": r.Nodes, "sites_to_prove": len(x.sites), "ways_to_prove": n, "held_by_evaluation": r.Trivial, "seconds": float64(int(r.Secs*100)) / 100}
			if r.OK && n+r.Trivial == 0 {
				o.OK, o.Undecided, o.Detail = false, true, "nothing to decide was found"
			}
			for f := range r.Fns {
				o.Funcs = append(o.Funcs, f)
			}
			obs = append(obs, o)
			for _, s := range x.sites {
				pos := p.SSA.Fset.Position(s.Pos)
				ob := &Obligation{Rule: s.Rule, Construct: fmt.Sprintf("%s/%s@%s:%d:%d", r.Name, s.Fn, filepath.Base(pos.Filename), pos.Line, pos.Column), OK: s.OK, Pos: pos.String(), Detail: s.Why}
				obs = append(obs, ob)
			}
		}
		return obs
	}
}

func digest(files map[string][]byte) string {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	h := sha256.New()
	for _, n := range names {
		fmt.Fprintf(h, "%s %d\n", n, len(files[n]))
		h.Write(files[n])
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}
