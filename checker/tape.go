package main

// The tape: a summary of the Exp-Golomb bit reader, proved correct by B04. The stream is a sequence of
// places; a place holds one bit, one unsigned or one signed code, whatever the reader asks for there. Two
// readings see the same values exactly when they ask for the same things at the same places.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	tapeBits = -101 - iota
	tapeUE
	tapeSE
)

func (e *Eng) tapeEnd() Lin {
	y, _ := e.consSym("tape-end", "tape-end", ip(0), ip(1<<40))
	return S(y)
}

// tapeAt is what is at a place.
func (e *Eng) tapeAt(s *State, kind int, pos Lin) Lin {
	switch kind {
	case tapeBits:
		e.idBounds[kind] = [2]int64{0, 1}
	case tapeUE:
		e.idBounds[kind] = [2]int64{0, 1<<33 - 2}
	}
	return e.elemVal(s, kind, types.Typ[types.Uint64], pos, nil).(IntV).L
}

// tapeBitsAt is the number made of n bits.
func (e *Eng) tapeBitsAt(s *State, pos Lin, n int64) Lin {
	r := K(0)
	for i := int64(0); i < n; i++ {
		r = r.Mul(2).Add(e.tapeAt(s, tapeBits, pos.AddK(i)))
	}
	return r
}

// tapeCall answers a method of the bit reader from the tape.
func (e *Eng) tapeCall(s *State, fn *ssa.Function, args []Val, site ssa.CallInstruction) (bool, []vs) {
	name := fn.String()
	if !strings.HasPrefix(name, "(*"+modPath+"/bufio.GolombBitReader).") {
		return false, nil
	}
	m := fn.Name()
	kind, n := tapeBits, int64(1)
	switch m {
	case "ReadBit":
	case "ReadBits", "ReadBits32", "ReadBits64":
		l := s.num.Norm(args[1].(IntV).L)
		if !l.IsConst() || l.K < 0 || l.K > 62 {
			return false, nil
		}
		n = l.K
	case "ReadExponentialGolombCode":
		kind = tapeUE
	case "ReadSE":
		kind = tapeSE
	default:
		return false, nil
	}
	st, p := e.deref(s, args[0], site)
	if st == nil {
		return true, nil
	}
	fields := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct).NumFields()
	var out []vs
	for _, r := range e.load(st, p) {
		v := r.v.(StructV)
		pos := K(0)
		if len(v.F) > fields {
			pos = v.F[fields].(IntV).L
		} else {
			e.tapeSource(r.st, v, fn, site)
		}
		end := pos.AddK(n)
		ok, fail := e.split(r.st, geB(e.tapeEnd().Sub(end)))
		if ok != nil {
			var x Lin
			if kind == tapeBits {
				x = e.tapeBitsAt(ok, pos, n)
			} else {
				x = e.tapeAt(ok, kind, pos)
			}
			nv := StructV{append(append([]Val{}, v.F[:fields]...), IntV{end})}
			for _, t := range e.store(ok, p, nv) {
				out = append(out, vs{t, TupleV{[]Val{IntV{x}, NilV{}}}})
			}
		}
		if fail != nil {
			nv := StructV{append(append([]Val{}, v.F[:fields]...), IntV{e.tapeEnd()})}
			for _, t := range e.store(fail, p, nv) {
				out = append(out, vs{t, TupleV{[]Val{e.havoc(t, fn.Signature.Results().At(0).Type(), "part"), e.opaqueErr("end")}}})
			}
		}
	}
	return true, out
}

// tapeSpec answers the specification's readings.
func (e *Eng) tapeSpec(s *State, name string, args []Val) []vs {
	pos := s.ghosts["!tape"].(IntV).L
	kind, n := tapeBits, int64(1)
	switch name {
	case "U":
		n = s.num.Norm(args[0].(IntV).L).K
	case "UE":
		kind = tapeUE
	case "SE":
		kind = tapeSE
	case "TapePos":
		return []vs{{s, IntV{pos}}}
	case "TapeEnd":
		return []vs{{s, IntV{e.tapeEnd()}}}
	}
	var x Lin
	if kind == tapeBits {
		x = e.tapeBitsAt(s, pos, n)
	} else {
		x = e.tapeAt(s, kind, pos)
	}
	s.ghosts["!tape"] = IntV{pos.AddK(n)}
	return []vs{{s, IntV{x}}}
}

// replacement is what bytes.Replace did.
type replacement struct {
	in       SliceV
	old, new string
	n        Lin
}

// constBytes is a slice of known bytes, or "?".
func (e *Eng) constBytes(s *State, v SliceV, limit int64) string {
	n := s.num.Norm(sliceLen(v))
	if !n.IsConst() || n.K > limit {
		return "?"
	}
	var b strings.Builder
	for i := int64(0); i < n.K; i++ {
		rs := e.index(s, v, K(i))
		if len(rs) != 1 {
			return "?"
		}
		x, ok := rs[0].v.(IntV)
		if !ok || !s.num.Norm(x.L).IsConst() {
			return "?"
		}
		b.WriteByte(byte(s.num.Norm(x.L).K))
	}
	return b.String()
}

// tapeSource is the obligation that the stream is the payload without its emulation prevention bytes. It is
// decided where the source is the data itself or was made by bytes.Replace.
func (e *Eng) tapeSource(s *State, reader StructV, fn *ssa.Function, site ssa.Instruction) {
	g, ok := s.ghosts["!rbsp"]
	if !ok {
		return
	}
	data, off := g.(SliceV), s.ghosts["!rbsp-off"].(IntV).L
	src, ok := s.resolve(reader.F[0]).(IfaceV)
	if !ok || src.T == nil || src.T.String() != "*bytes.Reader" {
		return
	}
	p, ok := s.resolve(src.V).(PtrV)
	if !ok {
		return
	}
	rs := e.load(s, p)
	if len(rs) != 1 {
		return
	}
	in, ok := s.resolve(rs[0].v.(StructV).F[0]).(SliceV)
	if !ok || in.Nil {
		return
	}
	where := site.Parent().String()
	at := e.pos(site)
	if in.Obj == data.Obj {
		e.record(s, "require", where, at, "the emulation prevention bytes are not removed", false)
		return
	}
	a := e.arrOf(s, in)
	r, ok := e.replaced[a.C.ID]
	if !ok || len(a.C.W) > 0 {
		return
	}
	n := s.num.Norm(r.n)
	good := r.old == "\x00\x00\x03" && r.new == "\x00\x00" && n.IsConst() && n.K < 0 &&
		r.in.Obj == data.Obj && s.num.EntailsEq(r.in.Off.Sub(data.Off).Sub(off)) && s.num.EntailsEq(sliceLen(r.in).Add(off).Sub(sliceLen(data)))
	e.record(s, "require", where, at, "the emulation prevention bytes of the whole payload are removed, and nothing else", good)
}
