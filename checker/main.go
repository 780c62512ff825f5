package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/lkmio/avformat"

type World struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // repo packages by path
	tps  map[*types.Package]bool
	typs map[string]*packages.Package
}

func load(client string) (*World, error) {
	overlay, err := clientOverlay(client)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Overlay: overlay, Mode: packages.LoadAllSyntax, Dir: repoDir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")}
	pats := []string{"./..."}
	if client != "" {
		pats = append(pats, modPath+"/zzvp/...")
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, x := range p.Errors {
			return nil, fmt.Errorf("%v", x)
		}
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, tps: map[*types.Package]bool{}, typs: map[string]*packages.Package{}}
	for i, p := range ps {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no ssa for %s", p.PkgPath)
		}
		if strings.HasSuffix(p.ID, "]") || strings.HasSuffix(p.PkgPath, "_test") || strings.HasSuffix(p.PkgPath, ".test") {
			continue
		}
		w.pkgs[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")] = spkgs[i]
		w.tps[spkgs[i].Pkg] = true
		w.typs[p.PkgPath] = p
	}
	return w, nil
}

// newEng makes an engine whose initial state has the package variables initialised.
func (w *World) newEng() (*Eng, *State) {
	e := &Eng{Ctx: NewCtx(), prog: w.prog, repo: w.tps, elemOf: map[Sym]elemRef{}, elemsOf: map[int][]Sym{}, idBounds: map[int][2]int64{}, replaced: map[int]replacement{}, globInit: map[*ssa.Global]Val{},
		infos: map[*ssa.Function]*fnInfo{}, K: 8, unroll: 72, calls: map[string]int{}, maxSteps: 30000000, pend: -1,
		unmodelled: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}}
	st := &State{num: NewNum(), heap: map[ObjID]*Obj{}, ghosts: map[string]Val{}, lazy: map[int]Val{}, strs: map[Sym]StrK{}}
	var names []string
	for n := range w.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[*types.Package]bool{}
	var initPkg func(p *ssa.Package)
	initPkg = func(p *ssa.Package) {
		if done[p.Pkg] {
			return
		}
		done[p.Pkg] = true
		for _, im := range p.Pkg.Imports() {
			if w.tps[im] {
				initPkg(w.prog.Package(im))
			}
		}
		fn := p.Func("init")
		e.noPanics = true
		e.hooks.OnCall = func(s *State, f *ssa.Function, args []Val, site ssa.CallInstruction) (bool, []vs) {
			if site != nil && f.Synthetic == "package initializer" {
				return true, []vs{{s, nil}}
			}
			return false, nil
		}
		rs := e.callTop(st, fn, nil)
		if len(rs) != 1 {
			panic(abort{fmt.Sprintf("initialisation of %s has %d outcomes", p.Pkg.Path(), len(rs))})
		}
		st = rs[0].st
	}
	for _, n := range names {
		initPkg(w.pkgs[n])
	}
	e.noPanics = false
	e.hooks = Hooks{}
	e.obs = nil
	e.fnsSeen = map[*ssa.Function]bool{}
	e.calls = map[string]int{}
	st.trace = nil
	return e, st
}

// callTop runs a function from a state without frames.
func (e *Eng) callTop(st *State, fn *ssa.Function, args []Val) []vs {
	return e.callFn(st, fn, args, nil, nil)
}

func main() {
	t0 := time.Now()
	debug.SetGCPercent(400)
	if d := os.Getenv("REPO"); d != "" {
		repoDir = d
	}
	switch {
	case len(os.Args) == 3 && os.Args[1] == "check":
		os.Exit(check(os.Args[2]))
	case len(os.Args) == 2 && os.Args[1] == "gen":
		gen()
		return
	case len(os.Args) == 5 && os.Args[1] == "unit":
		p := propByID(os.Args[2])
		runUnit(p, os.Args[3], os.Args[4])
		return
	}
	w, err := load(os.Getenv("CLIENT"))
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	_ = t0
	if p := os.Getenv("PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	runMain(w, os.Args[1:], t0)
}
