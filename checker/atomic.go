package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Atomic operations, and the steps of other goroutines in between: with vp.Interfere every atomic operation
// sees a cell that others have changed to anything, the changes of the function itself are counted, and a
// cell that is accessed atomically must not be accessed in any other way.

func (e *Eng) cell(p PtrV) string {
	k := fmt.Sprint(p.Obj)
	for _, x := range p.Path {
		k += fmt.Sprintf(".%d", x.Field)
	}
	return k
}

// plain notes an access that is not atomic.
func (e *Eng) plain(s *State, p PtrV, in ssa.Instruction) {
	if !e.interfere {
		return
	}
	k := e.cell(p)
	if at, ok := e.atomicCells[k]; ok {
		e.record(s, "require", in.Parent().String(), e.pos(in), "the cell is accessed atomically at "+at+" and plainly here", false)
	}
	e.plainCells[k] = e.pos(in)
}

func (e *Eng) atomicAt(s *State, p PtrV, site ssa.CallInstruction) {
	if !e.interfere {
		return
	}
	k := e.cell(p)
	if at, ok := e.plainCells[k]; ok {
		e.record(s, "require", site.Parent().String(), e.pos(site), "the cell is accessed plainly at "+at+" and atomically here", false)
	} else {
		e.record(nil, "require", site.Parent().String(), e.pos(site), "a cell is accessed only atomically", true)
	}
	e.atomicCells[k] = e.pos(site)
}

// atomicOp interprets an operation of sync/atomic on integers.
func (e *Eng) atomicOp(s *State, fn *ssa.Function, name string, args []Val, site ssa.CallInstruction) (bool, []vs) {
	var op string
	var field bool
	switch {
	case strings.HasPrefix(name, "sync/atomic."):
		op = strings.TrimPrefix(name, "sync/atomic.")
		ok := false
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
			if strings.HasSuffix(op, t) && !ok {
				op, ok = strings.TrimSuffix(op, t), true
				if strings.HasSuffix(op, "U") {
					ok = false
				}
			}
		}
		if !ok {
			return false, nil
		}
	case strings.HasPrefix(name, "(*sync/atomic."):
		i := strings.Index(name, ").")
		switch name[len("(*sync/atomic."):i] {
		case "Int32", "Int64", "Uint32", "Uint64":
		default:
			return false, nil
		}
		op, field = name[i+2:], true
	default:
		return false, nil
	}
	switch op {
	case "Add", "Load", "Store", "Swap", "CompareAndSwap":
	default:
		return false, nil
	}
	s, p := e.deref(s, args[0], site)
	if s == nil {
		return true, nil
	}
	if field {
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "v" {
				p.Path = append(p.Path[:len(p.Path):len(p.Path)], PathElem{Field: i})
			}
		}
	}
	e.atomicAt(s, p, site)
	var out []vs
	for _, r := range e.load(s, p) {
		old, ok := r.v.(IntV)
		if !ok {
			panic(abort{"atomic operation on " + fmt.Sprintf("%T", r.v)})
		}
		typ := fn.Signature.Params()
		var t types.Type
		if op == "Load" {
			t = fn.Signature.Results().At(0).Type()
		} else {
			t = typ.At(typ.Len() - 1).Type()
		}
		st := r.st
		if e.interfere {
			// whatever the others have made of it
			old = e.havoc(st, t, "shared").(IntV)
		}
		write := func(st *State, v Val, result Val) {
			for _, q := range e.store(st, p, v) {
				if e.interfere {
					n := 0
					if g, ok := q.ghosts["!writes"]; ok {
						n = int(g.(IntV).L.K)
					}
					q.ghosts["!writes"] = IntV{K(int64(min(n+1, 3)))}
					q.ghosts["!old"] = old
					q.ghosts["!new"] = v
				}
				out = append(out, vs{q, result})
			}
		}
		switch op {
		case "Load":
			if e.interfere {
				for _, q := range e.store(st, p, old) {
					q.ghosts["!seen"] = old
					out = append(out, vs{q, old})
				}
			} else {
				out = append(out, vs{st, old})
			}
		case "Store":
			write(st, args[1], nil)
		case "Swap":
			write(st, args[1], old)
		case "Add":
			for _, w := range e.wrap(st, old.L.Add(args[1].(IntV).L), t, "atomic") {
				write(w.st, w.v, w.v)
			}
		case "CompareAndSwap":
			yes, no := e.split(st, eqB(old.L.Sub(args[1].(IntV).L)))
			if yes != nil {
				write(yes, args[2], boolC(true))
			}
			if no != nil {
				for _, q := range e.store(no, p, old) {
					out = append(out, vs{q, boolC(false)})
				}
			}
		}
	}
	return true, out
}
