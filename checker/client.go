package main

// Contract clients: Go sources that are analysed together with the repository, never run.

import (
	"embed"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed clients
var clientFS embed.FS

// clientOverlay lays the vocabulary and one client package over the repository, in memory only.
func clientOverlay(client string) (map[string][]byte, error) {
	out := map[string][]byte{}
	if client == "" {
		return out, nil
	}
	for _, d := range []string{"vp", client} {
		es, err := clientFS.ReadDir("clients/" + d)
		if err != nil {
			return nil, err
		}
		for _, f := range es {
			b, err := clientFS.ReadFile("clients/" + d + "/" + f.Name())
			if err != nil {
				return nil, err
			}
			out[filepath.Join(repoDir, "zzvp", d, strings.TrimSuffix(f.Name(), ".txt"))] = b
		}
	}
	return out, nil
}

const vpPath = modPath + "/zzvp/vp"

func (e *Eng) isClient(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"/zzvp/")
}

// where is the place of the repository that a client's obligation is about: the innermost frame of
// repository code, or else the function the client called last.
func (e *Eng) where(st *State, site ssa.Instruction) (fn, pos string) {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if !e.isClient(f.fn) {
			p := "?"
			if i+1 < len(st.frames) && st.frames[i+1].site != nil {
				p = e.pos(st.frames[i+1].site)
			}
			return f.fn.String(), p
		}
	}
	if e.target != "" {
		return e.target, e.targetPos
	}
	return site.Parent().String(), e.pos(site)
}

// vpCall interprets the vocabulary of the clients.
func (e *Eng) vpCall(s *State, fn *ssa.Function, args []Val, site ssa.CallInstruction) []vs {
	if fn.Name() == "init" {
		return []vs{{s, nil}}
	}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	one := func(v Val) []vs { return []vs{{s, v}} }
	str := func(v Val) string { return v.(StrV).S }
	what := func(w string) string {
		if site == nil {
			return w
		}
		return w + " [" + strings.TrimPrefix(site.Parent().String(), modPath+"/zzvp/") + "]"
	}
	switch o.Name() {
	case "Any":
		return one(e.havoc(s, fn.Signature.Results().At(0).Type(), "any"))
	case "Bool":
		return one(e.unknownBool("choice"))
	case "Bytes":
		n, lo, hi := args[0].(IntV).L, s.num.Norm(args[1].(IntV).L), s.num.Norm(args[2].(IntV).L)
		if !lo.IsConst() || !hi.IsConst() {
			panic(abort{"vp.Bytes of a variable range"})
		}
		if !s.num.AssumeGe(n) {
			return nil
		}
		r := e.newSlice(s, types.Typ[types.Uint8], n, n, "bytes")
		a := s.heap[r.Obj].Val.(ArrV)
		a.C = &Content{ID: e.id()}
		e.idBounds[a.C.ID] = [2]int64{lo.K, hi.K}
		s.setObj(r.Obj, a)
		return one(r)
	case "Pick":
		n := s.num.Norm(args[0].(IntV).L)
		if !n.IsConst() {
			panic(abort{"vp.Pick of a variable"})
		}
		var out []vs
		for i := int64(0); i < n.K; i++ {
			out = append(out, vs{s.Clone(), IntV{K(i)}})
		}
		return out
	case "Unroll":
		e.tryUnroll = int(s.num.Norm(args[0].(IntV).L).K)
		return []vs{{s, nil}}
	case "States":
		if n := int(s.num.Norm(args[0].(IntV).L).K); n > e.K {
			e.K = n
		}
		return []vs{{s, nil}}
	case "Interfere":
		e.interfere = true
		e.atomicCells, e.plainCells = map[string]string{}, map[string]string{}
		delete(s.ghosts, "!writes")
		return []vs{{s, nil}}
	case "Writes":
		if v, ok := s.ghosts["!writes"]; ok {
			return one(v)
		}
		return one(IntV{K(0)})
	case "Old", "New", "Seen":
		if v, ok := s.ghosts["!"+strings.ToLower(o.Name())]; ok {
			return one(v)
		}
		return one(e.havoc(s, fn.Signature.Results().At(0).Type(), "none"))
	case "Widen":
		e.strictLoops = true
		return []vs{{s, nil}}
	case "AnySPS":
		e.anySPS = true
		return []vs{{s, nil}}
	case "Tape":
		e.tape = true
		s.ghosts["!tape"], s.ghosts["!tape-end"] = IntV{K(0)}, IntV{e.tapeEnd()}
		return []vs{{s, nil}}
	case "Rbsp":
		s.ghosts["!rbsp"], s.ghosts["!rbsp-off"] = args[0], args[1]
		return []vs{{s, nil}}
	case "U", "UE", "SE", "TapePos", "TapeEnd":
		return e.tapeSpec(s, o.Name(), args)
	case "Deep":
		return one(boolC(os.Getenv("VERIF_TIER") == "thorough"))
	case "Recycle":
		e.recycle = true
		return []vs{{s, nil}}
	case "Same":
		f, p := e.where(s, site)
		a, okA := s.resolve(args[0]).(PtrV)
		b, okB := s.resolve(args[1]).(PtrV)
		if !okA || !okB {
			panic(abort{"vp.Same of unknown objects"})
		}
		t := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(abort{"vp.Same of " + t.String()})
		}
		for i := 0; i < st.NumFields(); i++ {
			var vals [2]Val
			for k, p := range []PtrV{a, b} {
				r := e.load(s, PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], PathElem{Field: i})})
				if len(r) != 1 {
					panic(abort{"vp.Same of undetermined fields"})
				}
				s, vals[k] = r[0].st, r[0].st.resolve(r[0].v)
			}
			ok := e.identical(s, vals[0], vals[1])
			e.record(s, "require", f, p, what(str(args[2])+": field "+st.Field(i).Name()), ok)
		}
		return []vs{{s, nil}}
	case "TraceElems":
		e.apart = true
		return []vs{{s, nil}}
	case "TraceReads":
		e.traceReads = true
		return []vs{{s, nil}}
	case "Case":
		n := s.num.Norm(args[0].(IntV).L)
		if !n.IsConst() {
			panic(abort{"vp.Case of a variable"})
		}
		at := 0
		if v, ok := s.ghosts["!case"]; ok {
			at = len(v.(StrV).S)
		}
		for len(e.caseMax) <= at {
			e.caseMax = append(e.caseMax, 0)
		}
		if len(e.caseVec) <= at {
			if len(e.caseVec) < at || at > 24 {
				panic(abort{"too many cases"})
			}
			e.caseVec = append(e.caseVec, 0)
		}
		e.caseMax[at] = max(e.caseMax[at], int(n.K))
		i := int64(e.caseVec[at])
		if i >= n.K {
			return nil
		}
		s.ghosts["!case"] = StrV{Const: true, S: strings.Repeat("|", at+1)}
		return one(IntV{K(i)})
	case "Assume":
		y, _ := e.split(s, s.resolve(args[0]).(BoolV))
		if y == nil {
			return nil
		}
		return []vs{{y, nil}}
	case "Require":
		b := s.resolve(args[0]).(BoolV)
		f, p := e.where(s, site)
		yes, no := e.split(s, b)
		if no != nil {
			e.record(no, "require", f, p, what(str(args[1])), false)
		} else {
			e.record(nil, "require", f, p, what(str(args[1])), true)
		}
		if yes == nil {
			return nil
		}
		return []vs{{yes, nil}}
	case "Fail":
		f, p := e.where(s, site)
		e.record(s, "require", f, p, what(str(args[0])), false)
		return nil
	case "SameArray":
		a, b := s.resolve(args[0]).(SliceV), s.resolve(args[1]).(SliceV)
		return one(boolC(!a.Nil && !b.Nil && a.Obj == b.Obj))
	case "Start":
		a := s.resolve(args[0]).(SliceV)
		if a.Nil {
			return one(IntV{})
		}
		return one(IntV{a.Off})
	}
	panic(abort{"vp." + o.Name()})
}

// nextCase advances a vector of choices; nil when all were followed.
func (e *Eng) nextCase() []int {
	v := append([]int{}, e.caseVec...)
	for i := len(v) - 1; i >= 0; i-- {
		if i < len(e.caseMax) && v[i]+1 < e.caseMax[i] {
			v[i]++
			return v[:i+1]
		}
	}
	return nil
}

// identical tells whether two values are certainly the same.
func (e *Eng) identical(s *State, a, b Val) bool {
	switch a := a.(type) {
	case IntV:
		b, ok := b.(IntV)
		return ok && s.num.EntailsEq(a.L.Sub(b.L))
	case SliceV:
		b, ok := b.(SliceV)
		if !ok || a.Nil || b.Nil {
			return ok && a.Nil && b.Nil
		}
		return a.Obj == b.Obj && len(a.Path) == 0 && len(b.Path) == 0 && s.num.EntailsEq(a.Off.Sub(b.Off)) && s.num.EntailsEq(a.Len.Sub(b.Len)) && a.Maybe == b.Maybe
	case BoolV:
		b, ok := b.(BoolV)
		if !ok {
			return false
		}
		y, n := e.split(s.Clone(), a)
		for v, st := range map[bool]*State{true: y, false: n} {
			if st == nil {
				continue
			}
			y, n := e.split(st, b)
			if v && n != nil || !v && y != nil {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}
