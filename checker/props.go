package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
)

// prop is a property: its obligations come from the client package of the same name (every exported
// function without parameters is a unit) and from rules over the program.
type prop struct {
	id, title string
	client    string // client package, when it is not the lower-case id; "-" for none
	tag       string // the clients' requirements that belong to the property have this prefix
	panics    bool   // the obligations are the run-time checks, not the clients' requirements
	both      bool   // the obligations are both
	min       int    // units confirmed by hand
	rules     map[string]func(w *World, out *UnitOut)
	explain   string   // what the check decides and how
	limits    string   // what it does not decide, or bounds
	assume    []string // beyond the general ones
	setup     func(e *Eng)

	statement, quant, why string
	over                  []string
	files                 []string
	mech                  [][2]string
	observe               string
	na                    string // the reason, for a property that is not claimed
}

func (p *prop) hasClient() bool { return p.client != "-" }

func (p *prop) ruleText() string {
	if p.both {
		return "every vp.Require of the client holds in every abstract state that reaches it, and every run-time check that the units reach is proved safe"
	}
	if p.panics {
		return "every index, slice bound, nil dereference, division, type assertion, allocation size, shift and explicit panic that the units reach is proved safe for all inputs of the unit"
	}
	if !p.hasClient() {
		return "every instance of the structural rules satisfies its rule"
	}
	return "every vp.Require of the client holds in every abstract state that reaches it"
}

func (p *prop) technique() string {
	switch {
	case !p.hasClient():
		return "type-resolved structural rules over the Go SSA form and call graph"
	case p.panics:
		return "interprocedural abstract interpretation (linear inequalities) of the Go SSA form: run-time check elimination"
	case p.rules != nil:
		return "interprocedural abstract interpretation of the Go SSA form against contract clients, plus structural SSA rules"
	}
	return "interprocedural abstract interpretation (linear inequalities, symbolic bytes) of the Go SSA form against contract clients"
}

func propByID(id string) *prop {
	for i := range props {
		if props[i].id == id {
			return &props[i]
		}
	}
	return nil
}

type obj = map[string]any

// gen writes properties.jsonl and MANIFEST.json.
func gen() {
	var lines bytes.Buffer
	var checks, na []obj
	for i := range props {
		p := &props[i]
		if len(p.title) > 80 || p.statement == "" || p.quant == "" || p.why == "" || len(p.over) == 0 || len(p.files) == 0 || len(p.mech) == 0 {
			fmt.Println("incomplete:", p.id, len(p.title))
			os.Exit(1)
		}
		var ms []obj
		for _, m := range p.mech {
			ms = append(ms, obj{"name": m[0], "where": m[1]})
		}
		an := obj{"files": p.files, "mechanism": ms}
		if p.observe != "" {
			an["observe_at"] = []string{p.observe}
		}
		b, _ := json.Marshal(obj{"id": p.id, "title": p.title, "statement": p.statement,
			"quantifier": obj{"over": p.over, "text": p.quant}, "why_tests_cant": p.why, "anchors": an})
		lines.Write(b)
		lines.WriteByte('\n')
		if p.na != "" {
			na = append(na, obj{"property": p.id, "reason": p.na})
			continue
		}
		note := p.explain
		if p.limits != "" {
			note += " Limits: " + p.limits
		}
		note += " Trusted: the analyser in checker/ (abstract domain and transfer functions), go/ssa, the clients in checker/clients."
		checks = append(checks, obj{"property": p.id, "quick_cmd": "./check.sh " + p.id, "thorough_cmd": "./check.sh " + p.id + " thorough",
			"technique": p.technique(), "level": "other", "level_note": note})
	}
	m := obj{"version": 1, "setup_cmd": "cd checker && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null .", "checks": checks, "not_applicable": na,
		"notes": "Generated by 'avcheck gen' from checker/prop*.go. Every check builds the analyser and analyses /repo's current source; nothing of /repo is executed."}
	b, _ := json.MarshalIndent(m, "", " ")
	b = bytes.ReplaceAll(b, []byte(`\u0026`), []byte("&"))
	b = bytes.ReplaceAll(b, []byte(`\u003e`), []byte(">"))
	b = bytes.ReplaceAll(b, []byte(`\u003c`), []byte("<"))
	os.WriteFile(verifDir+"/MANIFEST.json", append(b, '\n'), 0o644)
	os.WriteFile(verifDir+"/properties.jsonl", lines.Bytes(), 0o644)
}
