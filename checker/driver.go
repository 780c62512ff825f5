package main

// The property driver: avcheck check <ID> runs the units of a property in subprocesses, collects the
// obligations and reports the ones that are not discharged.

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const verifDir = "/verif"

// Ob is an obligation in the output of a unit.
type Ob struct {
	Rule  string   `json:"rule"`
	Fn    string   `json:"fn"`
	Pos   string   `json:"pos"`
	What  string   `json:"what,omitempty"`
	Trace []string `json:"trace,omitempty"`
}

// UnitOut is what a unit reports.
type UnitOut struct {
	Unit   string         `json:"unit"`
	Checks map[string]int `json:"checks"` // decided obligations per rule
	Sites  map[string]int `json:"sites"`  // distinct sites per rule
	Failed []Ob           `json:"failed"`
	Fns    []string       `json:"fns"`
	Notes  []string       `json:"notes"`
	Abort  string         `json:"abort,omitempty"`
	Wall   float64        `json:"wall_s"`
	Steps  int            `json:"steps"`
	Paths  int            `json:"exits"`
	Cases  int            `json:"cases"`
	site   map[string]map[string]bool
	bad    map[string]bool
	fns    map[string]bool
	notes  map[string]bool
	steps  int
}

func shortFn(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, modPath+"/", ""), modPath+".", "avformat.")
}

// collect turns the engine's obligations into a report.
func (e *Eng) collect(out *UnitOut, want func(rule, what string) bool) {
	if out.site == nil {
		out.site, out.bad, out.fns, out.notes = map[string]map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	}
	for _, o := range e.obs {
		if !want(o.rule, o.what) {
			continue
		}
		out.Checks[o.rule]++
		if out.site[o.rule] == nil {
			out.site[o.rule] = map[string]bool{}
		}
		out.site[o.rule][o.fn+"|"+o.pos+"|"+o.what] = true
		if o.ok {
			continue
		}
		k := o.rule + "|" + o.fn + "|" + o.pos + "|" + o.what
		if out.bad[k] {
			continue
		}
		out.bad[k] = true
		t := o.trace
		if len(t) > 30 {
			t = t[len(t)-30:]
		}
		out.Failed = append(out.Failed, Ob{o.rule, shortFn(o.fn), o.pos, o.what, t})
	}
	e.obs = nil
	for r, s := range out.site {
		out.Sites[r] = len(s)
	}
	for f := range e.fnsSeen {
		if !e.isClient(f) && e.isRepo(f) {
			out.fns[shortFn(f.String())] = true
		}
	}
	for n := range e.unmodelled {
		out.notes[n] = true
	}
	out.Fns, out.Notes = keys(out.fns), keys(out.notes)
	out.steps += e.steps
	e.steps = 0
	out.Steps = out.steps
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// clientUnits are the exported functions without parameters of a client package.
func (w *World) clientUnits(pkg string) []string {
	p := w.pkgs["zzvp/"+pkg]
	if p == nil {
		return nil
	}
	var out []string
	for n, m := range p.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && f.Signature.Params().Len() == 0 {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func runUnit(p *prop, unit, file string) {
	out := &UnitOut{Unit: unit, Checks: map[string]int{}, Sites: map[string]int{}}
	t0 := time.Now()
	var e *Eng
	var mu sync.Mutex
	flush := func() {
		mu.Lock()
		defer mu.Unlock()
		if e != nil {
			if out.Abort != "" && e.pend >= 0 && e.pend < len(e.obs) {
				e.obs = e.obs[:e.pend]
			}
			e.collect(out, p.wants)
		}
		out.Wall = time.Since(t0).Seconds()
		b, _ := json.Marshal(out)
		os.WriteFile(file, b, 0o644)
	}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				out.Abort = a.msg
			} else {
				out.Abort = fmt.Sprint("internal: ", r)
			}
			flush()
		}
	}()
	pk := p.pkg()
	if p.rules != nil && p.rules[unit] != nil {
		pk = ""
	}
	w, err := load(pk)
	if err != nil {
		out.Abort = "load: " + err.Error()
		flush()
		return
	}
	if pk == "" {
		p.rules[unit](w, out)
		out.Wall = time.Since(t0).Seconds()
		b, _ := json.Marshal(out)
		os.WriteFile(file, b, 0o644)
		return
	}
	for vec := []int{}; vec != nil; {
		en, st := w.newEng()
		e = en
		e.deadline = t0.Add(p.limit())
		e.caseVec = vec
		e.variant()
		if p.setup != nil {
			p.setup(e)
		}
		fn := w.fn("zzvp/" + pk + "." + unit)
		rs := e.callTop(st, fn, nil)
		out.Paths += len(rs)
		out.Cases++
		vec = e.nextCase()
		flush()
	}
}

func (p *prop) pkg() string {
	if p.client != "" {
		return p.client
	}
	return strings.ToLower(p.id)
}

func (p *prop) wants(rule, what string) bool {
	if rule == "require" && p.tag != "" && !strings.HasPrefix(what, p.tag+": ") {
		return false
	}
	if p.both {
		return true
	}
	if rule == "require" {
		return !p.panics
	}
	return p.panics
}

func (p *prop) limit() time.Duration {
	if os.Getenv("AVVARIANT") != "" {
		n, _ := strconv.Atoi(os.Getenv("AVLIMIT"))
		return time.Duration(n) * time.Second
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		return 700 * time.Second
	}
	return 420 * time.Second
}

type known struct{ prop, rule, fn, what, text string }

func knownFindings() []known {
	f, err := os.Open(filepath.Join(verifDir, "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k known
		parts := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 5)
		for _, q := range parts {
			kv := strings.SplitN(q, "=", 2)
			if len(kv) != 2 {
				continue
			}
			switch strings.TrimSpace(kv[0]) {
			case "property":
				k.prop = kv[1]
			case "rule":
				k.rule = kv[1]
			case "fn":
				k.fn = kv[1]
			case "what":
				k.what = kv[1]
			case "text":
				k.text = kv[1]
			}
		}
		out = append(out, k)
	}
	return out
}

func check(id string) int {
	t0 := time.Now()
	p := propByID(id)
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	self, _ := os.Executable()
	tmp, err := os.MkdirTemp("", "avcheck")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(tmp)
	var outs []*UnitOut
	var viol []Ob
	var units []string
	loadErr := ""
	if p.hasClient() {
		w, err := load(p.pkg())
		if err != nil {
			loadErr = err.Error()
			viol = append(viol, Ob{Rule: "anchor", Fn: "-", Pos: "-", What: "the contract client does not type-check against the repository: " + loadErr})
		} else {
			units = w.clientUnits(p.pkg())
		}
	}
	for u := range p.rules {
		units = append(units, u)
	}
	sort.Strings(units)
	if len(units) < p.min && loadErr == "" {
		viol = append(viol, Ob{Rule: "anchor", Fn: "-", Pos: "-", What: fmt.Sprintf("%d units instead of %d", len(units), p.min)})
	}
	begun := time.Now()
	sem := make(chan bool, max(2, runtime.NumCPU()))
	// run analyses a unit in a process of its own; the variants only change the precision.
	run := func(u, variant string, slot int) *UnitOut {
		sem <- true
		defer func() { <-sem }()
		f := filepath.Join(tmp, u+"-"+variant+"-"+strconv.Itoa(slot))
		limit := p.limit()
		if variant != "" {
			limit = min(150*time.Second, 600*time.Second-time.Since(begun))
			if limit < 10*time.Second {
				return &UnitOut{Unit: u, Abort: "no time left"}
			}
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit+20*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, self, "unit", id, u, f)
		cmd.Env = append(os.Environ(), "AVVARIANT="+variant, "AVLIMIT="+strconv.Itoa(int(limit.Seconds())))
		b, err := cmd.CombinedOutput()
		o := &UnitOut{Unit: u}
		if d, e := os.ReadFile(f); e == nil && json.Unmarshal(d, o) == nil {
			return o
		}
		o.Abort = fmt.Sprintf("no result: %v %s", err, tail(string(b), 600))
		return o
	}
	var wg sync.WaitGroup
	outs = make([]*UnitOut, len(units))
	for i, u := range units {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := run(u, "", i)
			outs[i] = o
			if len(o.Failed) == 0 || p.rules[u] != nil {
				return
			}
			// what another precision discharges holds
			key := func(v Ob) string { return v.Rule + "|" + v.Fn + "|" + v.Pos + "|" + v.What }
			var vg sync.WaitGroup
			vs := make([]*UnitOut, 3)
			for j := range vs {
				vg.Add(1)
				go func() {
					defer vg.Done()
					vs[j] = run(u, strconv.Itoa(j+1), i)
				}()
			}
			vg.Wait()
			for _, v := range vs {
				if v.Abort != "" {
					continue
				}
				bad := map[string]bool{}
				for _, x := range v.Failed {
					bad[key(x)] = true
				}
				var left []Ob
				for _, x := range o.Failed {
					if bad[key(x)] {
						left = append(left, x)
					}
				}
				o.Failed = left
			}
		}()
	}
	wg.Wait()

	fns := map[string]bool{}
	checks, sites := map[string]int{}, map[string]int{}
	total, undone := 0, []string{}
	notes := map[string]bool{}
	var rows []map[string]any
	seen := map[string]bool{}
	for _, o := range outs {
		for _, f := range o.Fns {
			fns[f] = true
		}
		n := 0
		for r, c := range o.Checks {
			checks[r] += c
			n += c
		}
		for r, c := range o.Sites {
			sites[r] += c
		}
		total += n
		for _, x := range o.Notes {
			notes[x] = true
		}
		if o.Abort != "" {
			undone = append(undone, o.Unit+": "+o.Abort)
		}
		rows = append(rows, map[string]any{"unit": o.Unit, "obligations": n, "failed": len(o.Failed), "functions": len(o.Fns), "abstract_steps": o.Steps, "exit_states": o.Paths, "wall_s": o.Wall, "not_finished": o.Abort})
		for _, v := range o.Failed {
			k := v.Rule + v.Fn + v.Pos + v.What
			if !seen[k] {
				seen[k] = true
				v.Trace = append([]string{"unit " + o.Unit}, v.Trace...)
				viol = append(viol, v)
			}
		}
	}
	var finds []string
	var rest []Ob
	ks := knownFindings()
	for _, v := range viol {
		hit := false
		for _, k := range ks {
			if k.prop == id && k.rule == v.Rule && k.fn == v.Fn && (k.what == "" || k.what == v.What) {
				hit = true
				finds = append(finds, fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s (%s)", id, v.Fn, k.text, v.Rule))
			}
		}
		if !hit {
			rest = append(rest, v)
		}
	}
	sort.Strings(finds)
	prev := ""
	for _, f := range finds {
		if f != prev {
			fmt.Println(f)
		}
		prev = f
	}
	for i, v := range rest {
		if i >= 20 {
			break
		}
		path := filepath.Join(verifDir, "evidence", fmt.Sprintf("%s-violation-%d.txt", id, i+1))
		os.WriteFile(path, []byte(fmt.Sprintf("property %s (%s)\nrule %s\nfunction %s\nposition %s\n%s\nblocks and branches on the path:\n  %s\nrepeat with: /verif/check.sh %s\n", id, p.title, v.Rule, v.Fn, v.Pos, v.What, strings.Join(v.Trace, "\n  "), id)), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s in %s at %s: %s\n", id, path, v.Rule, v.Fn, v.Pos, v.What)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var nl []string
	for f := range notes {
		nl = append(nl, f)
	}
	sort.Strings(nl)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          p.explain,
			"rule":                 p.ruleText(),
			"units":                rows,
			"obligations_decided":  total,
			"obligations_by_rule":  checks,
			"sites_by_rule":        sites,
			"not_discharged":       len(viol),
			"known_findings":       finds,
			"functions_analysed":   fl,
			"units_not_finished":   undone,
			"opaque_environment":   nl,
			"violations_reported":  rest,
			"all_units_completed":  len(undone) == 0,
			"analysed_source_tree": repoDir,
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(rest),
		"assumptions": append([]string{
			"the Go SSA form built by golang.org/x/tools represents the program; int is 64 bits wide",
			"slices and strings are shorter than 2^48 bytes; memory is never exhausted",
			"a unit listed under units_not_finished was not decided in this run",
		}, p.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, u := range undone {
		fmt.Println("NOTE: not finished:", u)
	}
	fmt.Printf("%s: %d units, %d obligations, %d functions, %d violations, %.1f s\n", id, len(units), total, len(fl), len(rest), time.Since(t0).Seconds())
	if len(rest) > 0 {
		return 1
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return "…" + s[len(s)-n:]
	}
	return s
}

// variant raises the precision, as AVVARIANT says.
func (e *Eng) variant() {
	switch os.Getenv("AVVARIANT") {
	case "1":
		e.K = 32
	case "2":
		e.K = 16
		e.tryUnroll = 5
	case "3":
		e.K = 16
		e.apart = true
	}
}
