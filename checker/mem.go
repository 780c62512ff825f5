package main

// Memory: objects, paths, array contents.

import (
	"fmt"
	"go/types"
	"strings"
)

// resolve chases a lazily resolved value.
func (st *State) resolve(v Val) Val {
	for {
		l, ok := v.(LazyV)
		if !ok {
			return v
		}
		r, ok := st.lazy[l.ID]
		if !ok {
			return v
		}
		v = r
	}
}

// splitNil splits a state over whether an unresolved value is nil.
func (e *Eng) splitNil(st *State, l LazyV) (isNil, non *State) {
	isNil = st.Clone()
	isNil.lazy[l.ID] = NilV{}
	e.materialize(st, l)
	return isNil, st
}

// materialize makes an unresolved value a distinct non-nil one.
func (e *Eng) materialize(st *State, l LazyV) Val {
	in := e.lazyT[l.ID]
	var v Val
	switch u := in.T.Underlying().(type) {
	case *types.Pointer:
		key := fmt.Sprintf("lazy|%d", l.ID)
		if x, ok := e.elems[key]; ok {
			p := x.(PtrV)
			st.heap[p.Obj] = &Obj{Val: e.havoc(st, u.Elem(), in.Tag), T: u.Elem(), Tag: in.Tag}
			v = p
		} else {
			p := PtrV{Obj: e.newObj(st, e.havoc(st, u.Elem(), in.Tag), u.Elem(), in.Tag)}
			e.elems[key] = p
			v = p
		}
	case *types.Map:
		o := e.newObj(st, MapO{Key: u.Key(), Elem: u.Elem(), Rest: e.id()}, in.T, in.Tag)
		v = MapV{o}
	case *types.Signature:
		v = FuncV{ID: e.keyID(fmt.Sprintf("lf|%d", l.ID))}
	default:
		v = IfaceV{ID: e.keyID(fmt.Sprintf("li|%d", l.ID))}
	}
	st.lazy[l.ID] = v
	return v
}

func (c *Ctx) keyID(key string) int {
	if v, ok := c.elems[key]; ok {
		return v.(OpaqueV).ID
	}
	id := c.id()
	c.elems[key] = OpaqueV{id}
	return id
}

func (e *Eng) obj(st *State, id ObjID) *Obj {
	o := st.heap[id]
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	return o
}

func (st *State) setObj(id ObjID, v Val) {
	o := *st.heap[id]
	o.Val = v
	st.heap[id] = &o
}

// elemVal is the element of an unknown content at an offset.
func (e *Eng) elemVal(st *State, id int, el types.Type, off Lin, sum *ElemSum) Val {
	n := st.num.Norm(off)
	key := fmt.Sprintf("e|%d|%s", id, n.Key())
	if _, _, ok := intInfo(el); ok {
		lo, hi := typeRange(el)
		if b, ok := e.idBounds[id]; ok {
			lo, hi = ip(b[0]), ip(b[1])
		}
		y, isNew := e.consSym(key, fmt.Sprintf("e%d[%s]", id, n.Str(e.name)), lo, hi)
		if isNew {
			e.elemOf[y] = elemRef{id, n}
			e.elemsOf[id] = append(e.elemsOf[id], y)
		}
		// the same element under another name
		for _, x := range e.elemsOf[id] {
			if x != y && st.num.sameLin(e.elemOf[x].off, n) {
				if !st.num.AssumeEq(S(x).Sub(S(y))) {
					st.num.bot = true
				}
			}
		}
		return IntV{S(y)}
	}
	v, ok := e.elems[key]
	if !ok {
		before := e.nobj
		v = e.havoc(st, el, fmt.Sprintf("e%d[..]", id))
		if e.nobj != before {
			if sl, ok := v.(SliceV); ok && e.nobj == before+1 {
				e.elems[key+"|obj"] = st.heap[sl.Obj].Val
				e.elems[key+"|tag"] = st.heap[sl.Obj]
			}
		}
		e.elems[key] = v
	}
	if sl, ok := v.(SliceV); ok {
		if sum != nil {
			if sum.NonNil && sl.Maybe != 0 {
				st.num.AssumeEq(S(sl.Maybe))
			}
			st.num.AssumeGe(sl.Len.SubK(sum.Min))
			st.num.AssumeGe(K(sum.Max).Sub(sl.Len))
		}
		if _, has := st.heap[sl.Obj]; !has {
			if o, ok := e.elems[key+"|tag"].(*Obj); ok {
				st.heap[sl.Obj] = o
			}
		}
		st.num.AssumeGe(sl.Cap.Sub(sl.Len))
		if sl.Maybe != 0 {
			st.num.AssumeGe(K(maxLen).Sub(S(sl.Maybe).Mul(maxLen)).Sub(sl.Cap))
		}
	}
	return v
}

type elemRef struct {
	id  int
	off Lin
}

func (e *Eng) readContent(st *State, ct *Content, el types.Type, off Lin) []vs {
	return e.readW(st, ct, el, off, len(ct.W), 0)
}

func (e *Eng) readW(st *State, ct *Content, el types.Type, off Lin, n int, splits int) []vs {
	for i := n - 1; i >= 0; i-- {
		w := ct.W[i]
		var yes, no *State
		if w.Len.IsConst() && w.Len.K == 1 {
			d := off.Sub(w.Off)
			if st.num.EntailsNe(d) {
				continue
			}
			if st.num.EntailsEq(d) {
				yes = st
			} else if splits >= 40 {
				return []vs{{st, e.havoc(st, el, "read")}}
			} else {
				yes, no = e.split(st, eqB(d))
			}
		} else {
			a := off.Sub(w.Off)
			b := w.Off.Add(w.Len).Sub(off).AddK(-1)
			if st.num.Entails(a.Neg().AddK(-1)) || st.num.Entails(b.Neg().AddK(-1)) {
				continue
			}
			if st.num.Entails(a) && st.num.Entails(b) {
				yes = st
			} else if splits >= 40 {
				return []vs{{st, e.havoc(st, el, "read")}}
			} else {
				var lo, hi *State
				yes, lo = e.split(st, geB(a))
				var out []vs
				if lo != nil {
					out = append(out, e.readW(lo, ct, el, off, i, splits+1)...)
				}
				if yes != nil {
					yes, hi = e.split(yes, geB(b))
					if hi != nil {
						out = append(out, e.readW(hi, ct, el, off, i, splits+1)...)
					}
				}
				if yes != nil {
					e.tagRead(yes, i)
					out = append(out, e.readHit(yes, w, el, off)...)
				}
				return out
			}
		}
		var out []vs
		if yes != nil {
			e.tagRead(yes, i)
			out = e.readHit(yes, w, el, off)
		}
		if no != nil {
			out = append(out, e.readW(no, ct, el, off, i, splits+1)...)
		}
		return out
	}
	if len(ct.W) > 0 {
		e.tagRead(st, -1)
	}
	if ct.Zero {
		return []vs{{st, e.zero(el)}}
	}
	return []vs{{st, e.elemVal(st, ct.ID, el, off, ct.Sum)}}
}

// tagRead notes which write a read saw.
func (e *Eng) tagRead(st *State, i int) {
	if !e.traceReads || st == nil {
		return
	}
	t := ""
	if v, ok := st.ghosts["!rd"]; ok {
		p := strings.SplitN(v.(StrV).S, ".", e.rdDepth+1)
		if len(p) > e.rdDepth {
			p = p[:e.rdDepth]
		}
		t = strings.Join(p, ".") + "."
	}
	if e.rdDepth == 0 {
		t = ""
	}
	st.ghosts["!rd"] = StrV{Const: true, S: fmt.Sprint(t, i)}
}

func (e *Eng) readHit(st *State, w Write, el types.Type, off Lin) []vs {
	if w.Src != nil {
		e.rdDepth++
		defer func() { e.rdDepth-- }()
		return e.readContent(st, w.Src, el, w.SrcOff.Add(off.Sub(w.Off)))
	}
	if w.Havoc != 0 {
		return []vs{{st, e.elemVal(st, w.Havoc, el, off, nil)}}
	}
	return []vs{{st, w.Val}}
}

const maxWrites = 96

func (e *Eng) writeContent(st *State, ct *Content, w Write) *Content {
	if w.Len.IsConst() && w.Len.K == 0 {
		return ct
	}
	n := &Content{ID: ct.ID, Zero: ct.Zero, Sum: ct.Sum, W: ct.W}
	if w.Len.IsConst() && w.Len.K == 1 && w.Src == nil {
		for i := len(ct.W) - 1; i >= 0; i-- {
			o := ct.W[i]
			if o.Len.IsConst() && o.Len.K == 1 && st.num.EntailsEq(o.Off.Sub(w.Off)) {
				n.W = append(append([]Write{}, ct.W[:i]...), ct.W[i+1:]...)
				break
			}
			if !(o.Len.IsConst() && o.Len.K == 1 && st.num.EntailsNe(o.Off.Sub(w.Off))) {
				break
			}
		}
	}
	if len(n.W) >= maxWrites {
		return &Content{ID: e.id()}
	}
	n.W = append(n.W[:len(n.W):len(n.W)], w)
	return n
}

// getPath reads along a path.
func (e *Eng) getPath(st *State, v Val, path []PathElem) []vs {
	if len(path) == 0 {
		return []vs{{st, v}}
	}
	p := path[0]
	if p.Field >= 0 {
		s, ok := st.resolve(v).(StructV)
		if !ok {
			panic(fmt.Sprintf("field of %T", v))
		}
		return e.getPath(st, s.F[p.Field], path[1:])
	}
	a, ok := v.(ArrV)
	if !ok {
		panic(fmt.Sprintf("index of %T", v))
	}
	var out []vs
	for _, r := range e.readContent(st, a.C, a.Elem, p.Idx) {
		out = append(out, e.getPath(r.st, r.v, path[1:])...)
	}
	return out
}

// setPath writes along a path and yields the new container.
func (e *Eng) setPath(st *State, v Val, path []PathElem, nv Val) []vs {
	if len(path) == 0 {
		return []vs{{st, nv}}
	}
	p := path[0]
	if p.Field >= 0 {
		s, ok := v.(StructV)
		if !ok {
			panic(fmt.Sprintf("set field of %T", v))
		}
		var out []vs
		for _, r := range e.setPath(st, s.F[p.Field], path[1:], nv) {
			f := append([]Val{}, s.F...)
			f[p.Field] = r.v
			out = append(out, vs{r.st, StructV{f}})
		}
		return out
	}
	a, ok := v.(ArrV)
	if !ok {
		panic(fmt.Sprintf("set index of %T", v))
	}
	if len(path) == 1 {
		return []vs{{st, ArrV{a.Len, a.Elem, e.writeContent(st, a.C, Write{Off: p.Idx, Len: K(1), Val: nv})}}}
	}
	var out []vs
	for _, r := range e.readContent(st, a.C, a.Elem, p.Idx) {
		for _, q := range e.setPath(r.st, r.v, path[1:], nv) {
			out = append(out, vs{q.st, ArrV{a.Len, a.Elem, e.writeContent(q.st, a.C, Write{Off: p.Idx, Len: K(1), Val: q.v})}})
		}
	}
	return out
}

func (e *Eng) load(st *State, p PtrV) []vs {
	if st.heap[p.Obj] == nil {
		panic(fmt.Sprintf("load: no object %d", p.Obj))
	}
	return e.getPath(st, st.heap[p.Obj].Val, p.Path)
}

func (e *Eng) store(st *State, p PtrV, v Val) []*State {
	var out []*State
	states := []*State{st}
	if n := len(p.Path); n > 0 && p.Path[n-1].Field < 0 && e.hooks.OnWrite != nil {
		states = e.hooks.OnWrite(st, WriteEv{Obj: p.Obj, Path: p.Path[:n-1], Off: p.Path[n-1].Idx, Len: K(1), Val: v})
	}
	for _, st := range states {
		for _, r := range e.setPath(st, st.heap[p.Obj].Val, p.Path, v) {
			r.st.setObj(p.Obj, r.v)
			out = append(out, r.st)
		}
	}
	if e.hooks.OnStore != nil {
		for _, s := range out {
			e.hooks.OnStore(s, p, v)
		}
	}
	return out
}

// WriteEv describes a write into an array.
type WriteEv struct {
	Obj      ObjID
	Path     []PathElem
	Off, Len Lin
	Val      Val
	Src      *Content
	SrcOff   Lin
	SrcObj   ObjID
}

// arrOf reads the array a slice points into.
func (e *Eng) arrOf(st *State, s SliceV) ArrV {
	v := st.heap[s.Obj].Val
	for _, p := range s.Path {
		if p.Field < 0 {
			rs := e.readContent(st, v.(ArrV).C, v.(ArrV).Elem, p.Idx)
			if len(rs) != 1 {
				panic("slice into an undetermined element")
			}
			v = rs[0].v
			continue
		}
		v = v.(StructV).F[p.Field]
	}
	a, ok := v.(ArrV)
	if !ok {
		panic(fmt.Sprintf("slice into %T", v))
	}
	return a
}

// writeRange copies a content into a slice's array.
func (e *Eng) writeRange(st *State, dst SliceV, off, n Lin, src *Content, srcOff Lin, srcObj ObjID) []*State {
	states := []*State{st}
	if e.hooks.OnWrite != nil {
		states = e.hooks.OnWrite(st, WriteEv{Obj: dst.Obj, Path: dst.Path, Off: off, Len: n, Src: src, SrcOff: srcOff, SrcObj: srcObj})
	}
	var out []*State
	for _, st := range states {
		a := e.arrOf(st, dst)
		nc := e.writeContent(st, a.C, Write{Off: off, Len: n, Src: src, SrcOff: srcOff})
		for _, r := range e.setPath(st, st.heap[dst.Obj].Val, dst.Path, ArrV{a.Len, a.Elem, nc}) {
			r.st.setObj(dst.Obj, r.v)
			out = append(out, r.st)
		}
	}
	return out
}

// index reads element i of a slice (no bounds check).
func (e *Eng) index(st *State, s SliceV, i Lin) []vs {
	a := e.arrOf(st, s)
	return e.readContent(st, a.C, a.Elem, s.Off.Add(i))
}

func sliceLen(s SliceV) Lin {
	if s.Nil {
		return K(0)
	}
	return s.Len
}

func sliceCap(s SliceV) Lin {
	if s.Nil {
		return K(0)
	}
	return s.Cap
}

// newSlice allocates a zeroed slice.
func (e *Eng) newSlice(st *State, el types.Type, n, cp Lin, tag string) SliceV {
	o := e.newObj(st, ArrV{Len: cp, Elem: el, C: &Content{ID: e.id(), Zero: true}}, types.NewSlice(el), tag)
	st.heap[o].Fresh = true
	return SliceV{Obj: o, Len: n, Cap: cp}
}
