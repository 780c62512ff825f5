package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func runMain(w *World, args []string, t0 time.Time) {
	if args[0] == "list" {
		for _, f := range w.allFns() {
			fmt.Println(f)
		}
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				fmt.Println("ABORT", a.msg)
				os.Exit(5)
			}
			panic(r)
		}
	}()
	if os.Getenv("PROF") != "" {
		go func() {
			time.Sleep(40 * time.Second)
			pprof.StopCPUProfile()
			println("joins", joinCount, "lp", lpCount, "slow", lpSlow)
			os.Exit(1)
		}()
	}
	total, allBad, cases := 0, 0, 0
	for vec := []int{}; vec != nil; {
		e, st := w.newEng()
		e.debug = os.Getenv("DEBUG") != ""
		e.caseVec = vec
		e.variant()
		cases++
		fn := w.fn(args[0])
		var as []Val
		for _, p := range fn.Params {
			as = append(as, e.havoc(st, p.Type(), p.Name()))
		}
		rs := e.callTop(st, fn, as)
		bad := 0
		for _, o := range e.obs {
			if !o.ok {
				bad++
				fmt.Println("UNDECIDED", o.rule, strings.ReplaceAll(o.fn, modPath+"/", ""), o.pos, o.what, o.trace, e.caseVec)
				if e.debug {
					fmt.Println(o.dump)
				}
			}
		}
		if os.Getenv("DUMP") != "" {
			for _, r := range rs {
				fmt.Println("ret", e.vstr(r.st, r.v))
				fmt.Println(e.dump(r.st))
			}
		}
		total += len(e.obs)
		allBad += bad
		fmt.Println("case", e.caseVec, "exits", len(rs), "obligations", len(e.obs), "bad", bad, "steps", e.steps, "lp", lpCount, time.Since(t0), e.unmodelled)
		vec = e.nextCase()
	}
	fmt.Println("TOTAL", args[0], "cases", cases, "obligations", total, "bad", allBad, time.Since(t0))
}

func (w *World) allFns() []string {
	var out []string
	for n, p := range w.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" && m.Name() != "init" {
					out = append(out, n+"."+m.Name())
				}
			case *ssa.Type:
				nt, ok := m.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					f := nt.Method(i)
					s := m.Name()
					if _, ok := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); ok {
						s = "*" + s
					}
					out = append(out, n+".("+s+")."+f.Name())
				}
			}
		}
	}
	sort.Strings(out)
	return out
}
