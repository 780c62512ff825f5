package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fn finds a function or method: "avc.FindStartCode", ".NewX" (root package), "bufio.(*bytesReader).ReadUint8".
func (w *World) fn(name string) *ssa.Function {
	f := w.fnOpt(name)
	if f == nil {
		panic(abort{"function not found: " + name})
	}
	return f
}

func (w *World) fnOpt(name string) *ssa.Function {
	i := strings.Index(name, ".")
	p := w.pkgs[name[:i]]
	if p == nil {
		return nil
	}
	rest := name[i+1:]
	if !strings.Contains(rest, ".") {
		return p.Func(rest)
	}
	j := strings.LastIndex(rest, ".")
	tn, m := strings.Trim(rest[:j], "()*"), rest[j+1:]
	obj := p.Pkg.Scope().Lookup(tn)
	if obj == nil {
		return nil
	}
	t := obj.Type()
	for _, x := range []types.Type{types.NewPointer(t), t} {
		if sel := types.NewMethodSet(x).Lookup(p.Pkg, m); sel != nil {
			return w.prog.MethodValue(sel)
		}
	}
	return nil
}

func (w *World) typ(name string) types.Type {
	i := strings.Index(name, ".")
	p := w.pkgs[name[:i]]
	if p == nil {
		panic(abort{"package not found: " + name})
	}
	obj := p.Pkg.Scope().Lookup(name[i+1:])
	if obj == nil {
		panic(abort{"type not found: " + name})
	}
	return obj.Type()
}

func fieldIndex(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(abort{fmt.Sprintf("no field %s in %s", name, t)})
}
