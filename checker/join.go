package main

// Shapes, joins, widening and inclusion of states.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedEnv(f *Frame) []ssa.Value {
	ks := make([]ssa.Value, 0, len(f.env))
	for k := range f.env {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return valOrd(ks[i]) < valOrd(ks[j]) })
	return ks
}

var valOrdM = map[ssa.Value]int{}

func valOrd(v ssa.Value) int {
	if n, ok := valOrdM[v]; ok {
		return n
	}
	n := len(valOrdM)
	valOrdM[v] = n
	return n
}

func ghostKeys(st *State) []string {
	var ks []string
	for k := range st.ghosts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- shape

type shaper struct {
	e      *Eng
	st     *State
	coarse bool
	fine   bool // constants are told apart
	b      strings.Builder
	num    map[ObjID]int
	queue  []ObjID
	lazyN  map[int]int
}

// shape is a key of everything that a join cannot merge. extra holds pending values (returns).
func (e *Eng) shape(st *State, extra Val, coarse bool) string {
	return e.shapeOf(st, extra, coarse, false)
}

func (e *Eng) shapeOf(st *State, extra Val, coarse, fine bool) string {
	s := &shaper{e: e, st: st, coarse: coarse, fine: fine, num: map[ObjID]int{}, lazyN: map[int]int{}}
	for _, f := range st.frames {
		fmt.Fprintf(&s.b, "F%p", f.fn)
		for _, k := range sortedEnv(f) {
			fmt.Fprintf(&s.b, ";%d=", valOrd(k))
			if p, ok := k.(*ssa.Phi); ok && p.Comment == "rangeindex" {
				s.b.WriteString("i")
				continue
			}
			s.val(f.env[k])
		}
		fmt.Fprintf(&s.b, "D%d", len(f.defers))
		for _, d := range f.defers {
			s.val(d.fn)
			for _, a := range d.args {
				s.val(a)
			}
		}
	}
	for _, k := range ghostKeys(st) {
		s.b.WriteString("G" + k + "=")
		if strings.HasPrefix(k, "!") {
			sub := *s
			sub.coarse = false
			_ = sub
			old := s.coarse
			s.coarse = false
			s.val(st.ghosts[k])
			s.coarse = old
		} else {
			s.val(st.ghosts[k])
		}
	}
	s.val(extra)
	e.allGlobals(st)
	for _, g := range e.globOrder {
		if id, ok := e.globs[g]; ok {
			if _, in := st.heap[id]; in {
				s.ref(id)
			}
		}
	}
	for i := 0; i < len(s.queue); i++ {
		fmt.Fprintf(&s.b, "|O%d=", i)
		s.val(st.heap[s.queue[i]].Val)
	}
	return s.b.String()
}

// allGlobals gives a state the package variables that other states have met first.
func (e *Eng) allGlobals(st *State) {
	for _, g := range e.globOrder {
		if id, ok := e.globs[g]; ok && st.heap[id] == nil {
			st.heap[id] = &Obj{Val: e.globInit[g], T: g.Type().Underlying().(*types.Pointer).Elem(), Tag: g.String()}
		}
	}
}

func (s *shaper) ref(o ObjID) {
	n, ok := s.num[o]
	if !ok {
		if s.st.heap[o] == nil {
			fmt.Fprintf(&s.b, "@dead")
			return
		}
		n = len(s.queue)
		s.num[o] = n
		s.queue = append(s.queue, o)
	}
	fmt.Fprintf(&s.b, "@%d", n)
}

func (s *shaper) path(p []PathElem) {
	for _, x := range p {
		if x.Field >= 0 {
			fmt.Fprintf(&s.b, ".%d", x.Field)
		} else {
			s.b.WriteString("[]")
		}
	}
}

func (s *shaper) val(v Val) {
	v = s.st.resolve(v)
	switch v := v.(type) {
	case nil:
		s.b.WriteString("_")
	case IntV:
		// a sentinel of -1 is kept apart from proper values
		if l := s.st.num.Norm(v.L); len(l.T) == 0 && (l.K == -1 || s.fine) {
			if l.K == -1 {
				s.b.WriteString("i-")
			} else {
				fmt.Fprintf(&s.b, "i%d", l.K)
			}
			return
		}
		s.b.WriteString("i")
	case FloatV:
		s.b.WriteString("f")
	case OpaqueV:
		s.b.WriteString("o")
	case BoolV:
		if v.K == bConst && !s.coarse {
			fmt.Fprintf(&s.b, "b%v", v.B)
		} else {
			s.b.WriteString("b")
		}
	case StrV:
		if v.Const && !s.coarse {
			fmt.Fprintf(&s.b, "%q", v.S)
		} else {
			s.b.WriteString("s")
		}
	case NilV:
		s.b.WriteString("n")
	case LazyV:
		fmt.Fprintf(&s.b, "L%d", v.ID)
	case PtrV:
		s.b.WriteString("p")
		s.ref(v.Obj)
		s.path(v.Path)
	case SliceV:
		if v.Nil {
			s.b.WriteString("S0")
			return
		}
		s.b.WriteString("S")
		s.ref(v.Obj)
		s.path(v.Path)
	case StructV:
		s.b.WriteString("{")
		for _, f := range v.F {
			s.val(f)
			s.b.WriteString(",")
		}
		s.b.WriteString("}")
	case TupleV:
		s.b.WriteString("(")
		for _, f := range v.E {
			s.val(f)
			s.b.WriteString(",")
		}
		s.b.WriteString(")")
	case ArrV:
		s.b.WriteString("A")
		// element writes that hold references are part of the shape
		if _, _, isInt := intInfo(v.Elem); !isInt {
			if isSliceT(v.Elem) && (v.C.Sum != nil || s.coarse || summarisable(v.C)) {
				s.b.WriteString("*")
				return
			}
			fmt.Fprintf(&s.b, "z%v:", v.C.Zero)
			for _, w := range v.C.W {
				s.b.WriteString("w")
				if w.Src != nil {
					fmt.Fprintf(&s.b, "c%p", w.Src)
				} else {
					s.val(w.Val)
				}
			}
		}
	case IfaceV:
		if v.T == nil {
			s.b.WriteString("I?")
			return
		}
		s.b.WriteString("I" + v.T.String())
		s.val(v.V)
	case FuncV:
		if v.Fn == nil {
			fmt.Fprintf(&s.b, "fn%d", v.ID)
			return
		}
		fmt.Fprintf(&s.b, "fn%p", v.Fn)
		for _, b := range v.Bind {
			s.val(b)
		}
	case MapV:
		s.b.WriteString("m")
		s.ref(v.Obj)
	case MapO:
		fmt.Fprintf(&s.b, "M%d:%d", len(v.Keys), v.Rest)
		for i := range v.Keys {
			s.val(v.Keys[i])
			s.val(v.Vals[i])
		}
	case ListO:
		s.b.WriteString("Lst")
	default:
		fmt.Fprintf(&s.b, "%T", v)
	}
}

// ---- join

type joiner struct {
	contents map[[2]*Content]*Content
	e        *Eng
	A, B, R  *State
	objAB    map[ObjID]ObjID
	queue    []ObjID
	phis     map[string]Sym
	phiA     []Lin
	phiB     []Lin
	phiS     []Sym
	lazies   map[string]LazyV
	ids      map[string]int
	live     map[Sym]bool
	fail     string
	strs     map[string]Val
	apart    bool
	changed  bool
}

func (j *joiner) bad(f string, a ...interface{}) {
	if j.fail == "" {
		j.fail = fmt.Sprintf(f, a...)
	}
}

func (j *joiner) keep(l Lin) Lin {
	for _, t := range l.T {
		j.live[t.S] = true
	}
	return l
}

func (j *joiner) lin(a, b Lin) Lin {
	if a.Eq(b) {
		return j.keep(a)
	}
	na, nb := j.A.num.Norm(a), j.B.num.Norm(b)
	if na.Eq(nb) {
		return j.keep(na)
	}
	key := na.Key() + "~" + nb.Key()
	s, ok := j.phis[key]
	if !ok {
		l1, h1, a1, b1 := intrinsic(na)
		l2, h2, a2, b2 := intrinsic(nb)
		var lo, hi *int64
		// intrinsic ranges only grow to the next machine-like range, so that chains of joins are finite
		if a1 && a2 {
			for _, t := range []int64{0, math.MinInt64} {
				if min(l1, l2) >= t {
					lo = ip(t)
					break
				}
			}
		}
		if b1 && b2 {
			for _, t := range []int64{1, 255, 65535, 1<<32 - 1, maxLen, 1 << 42, math.MaxInt64} {
				if max(h1, h2) <= t {
					hi = ip(t)
					break
				}
			}
		}
		s = j.e.symIn("v", lo, hi)
		j.phis[key] = s
		j.phiA = append(j.phiA, na)
		j.phiB = append(j.phiB, nb)
		j.phiS = append(j.phiS, s)
		j.live[s] = true
	}
	return S(s)
}

func (j *joiner) obj(a, b ObjID) ObjID {
	if o, ok := j.objAB[a]; ok {
		if o != b {
			j.bad("aliasing differs")
		}
		return a
	}
	j.objAB[a] = b
	j.queue = append(j.queue, a)
	return a
}

func (j *joiner) path(a, b []PathElem) []PathElem {
	if len(a) != len(b) {
		j.bad("paths differ")
		return a
	}
	out := make([]PathElem, len(a))
	for i := range a {
		if a[i].Field != b[i].Field {
			j.bad("paths differ")
		}
		out[i] = a[i]
		if a[i].Field < 0 {
			out[i].Idx = j.lin(a[i].Idx, b[i].Idx)
		}
	}
	return out
}

func (j *joiner) val(va, vb Val) Val {
	va, vb = j.A.resolve(va), j.B.resolve(vb)
	switch a := va.(type) {
	case nil:
		if vb != nil {
			j.bad("missing value")
		}
		return nil
	case IntV:
		if b, ok := vb.(IntV); ok {
			return IntV{j.lin(a.L, b.L)}
		}
	case FloatV:
		if b, ok := vb.(FloatV); ok {
			if a == b {
				return a
			}
			return FloatV{fmt.Sprintf("j!%d", j.joinID("f"+a.Key+"~"+b.Key))}
		}
	case OpaqueV:
		if b, ok := vb.(OpaqueV); ok {
			if a == b {
				return a
			}
			return OpaqueV{j.joinID(fmt.Sprintf("o%d~%d", a.ID, b.ID))}
		}
	case BoolV:
		if b, ok := vb.(BoolV); ok {
			return j.boolean(a, b)
		}
	case StrV:
		if b, ok := vb.(StrV); ok {
			return j.str(a, b)
		}
	case NilV:
		if _, ok := vb.(NilV); ok {
			return a
		}
	case LazyV:
		if b, ok := vb.(LazyV); ok {
			if a == b {
				return a
			}
			key := fmt.Sprintf("%d~%d", a.ID, b.ID)
			if l, ok := j.lazies[key]; ok {
				return l
			}
			l := j.e.newLazy(j.e.lazyT[a.ID].T, j.e.lazyT[a.ID].Tag)
			j.lazies[key] = l
			return l
		}
	case PtrV:
		if b, ok := vb.(PtrV); ok {
			return PtrV{j.obj(a.Obj, b.Obj), j.path(a.Path, b.Path)}
		}
	case SliceV:
		if b, ok := vb.(SliceV); ok {
			if a.Nil || b.Nil {
				if a.Nil != b.Nil {
					break
				}
				return a
			}
			r := SliceV{Obj: j.obj(a.Obj, b.Obj), Path: j.path(a.Path, b.Path), Off: j.lin(a.Off, b.Off), Len: j.lin(a.Len, b.Len), Cap: j.lin(a.Cap, b.Cap)}
			if a.Maybe != 0 || b.Maybe != 0 {
				la, lb := Lin{}, Lin{}
				if a.Maybe != 0 {
					la = S(a.Maybe)
				}
				if b.Maybe != 0 {
					lb = S(b.Maybe)
				}
				if m := j.lin(la, lb); !m.IsConst() {
					if s, ok := m.IsSym(); ok {
						r.Maybe = s
					} else {
						r.Maybe = j.e.symIn("isnil", ip(0), ip(1))
					}
				}
			}
			return r
		}
	case StructV:
		if b, ok := vb.(StructV); ok {
			// one has read from the tape already
			for len(a.F) < len(b.F) {
				a.F = append(a.F[:len(a.F):len(a.F)], IntV{})
			}
			for len(b.F) < len(a.F) {
				b.F = append(b.F[:len(b.F):len(b.F)], IntV{})
			}
			r := StructV{make([]Val, len(a.F))}
			for i := range a.F {
				r.F[i] = j.val(a.F[i], b.F[i])
			}
			return r
		}
	case TupleV:
		if b, ok := vb.(TupleV); ok && len(a.E) == len(b.E) {
			r := TupleV{make([]Val, len(a.E))}
			for i := range a.E {
				r.E[i] = j.val(a.E[i], b.E[i])
			}
			return r
		}
	case ArrV:
		if b, ok := vb.(ArrV); ok {
			return ArrV{j.lin(a.Len, b.Len), a.Elem, j.content(a.C, b.C, a.Elem)}
		}
	case IfaceV:
		if b, ok := vb.(IfaceV); ok {
			if a.T == nil && b.T == nil {
				if a.ID == b.ID {
					return a
				}
				return IfaceV{ID: j.joinID(fmt.Sprintf("i%d~%d", a.ID, b.ID))}
			}
			if a.T != nil && b.T != nil && types.Identical(a.T, b.T) {
				return IfaceV{T: a.T, V: j.val(a.V, b.V)}
			}
		}
	case FuncV:
		if b, ok := vb.(FuncV); ok && a.Fn == b.Fn && a.ID == b.ID && len(a.Bind) == len(b.Bind) {
			r := FuncV{Fn: a.Fn, ID: a.ID}
			for i := range a.Bind {
				r.Bind = append(r.Bind, j.val(a.Bind[i], b.Bind[i]))
			}
			return r
		}
	case MapV:
		if b, ok := vb.(MapV); ok {
			return MapV{j.obj(a.Obj, b.Obj)}
		}
	case MapO:
		if b, ok := vb.(MapO); ok && len(a.Keys) == len(b.Keys) && a.Rest == b.Rest {
			r := MapO{Key: a.Key, Elem: a.Elem, Rest: a.Rest}
			for i := range a.Keys {
				r.Keys = append(r.Keys, j.val(a.Keys[i], b.Keys[i]))
				r.Vals = append(r.Vals, j.val(a.Vals[i], b.Vals[i]))
			}
			return r
		}
	case ListO:
		if b, ok := vb.(ListO); ok {
			return ListO{a.Elem, j.content(a.C, b.C, a.Elem), j.lin(a.Len, b.Len)}
		}
	}
	j.bad("%T and %T", va, vb)
	return va
}

func (j *joiner) joinID(key string) int {
	if id, ok := j.ids[key]; ok {
		return id
	}
	id := j.e.id()
	j.ids[key] = id
	j.changedIf(true)
	return id
}

func (j *joiner) changedIf(bool) {}

func (j *joiner) boolean(a, b BoolV) Val {
	if a.K == b.K && a.K == bConst && a.B == b.B {
		return a
	}
	if a.K == b.K && a.K != bConst && a.L.Eq(b.L) {
		j.keep(a.L)
		return a
	}
	la, oka := boolLin(a)
	lb, okb := boolLin(b)
	if oka && okb {
		l := j.lin(la, lb)
		if l.IsConst() {
			return boolC(l.K == 1)
		}
		return BoolV{K: bNe, L: l}
	}
	if a.K == b.K && a.K != bConst {
		return BoolV{K: a.K, L: j.lin(a.L, b.L)}
	}
	j.changed = true
	u := j.e.unknownBool("cond")
	j.keep(u.L)
	return u
}

func (j *joiner) str(a, b StrV) Val {
	if a.Const && b.Const && a.S == b.S {
		return a
	}
	if !a.Const && !b.Const && a.ID == b.ID {
		j.keep(a.Len)
		return a
	}
	key := j.e.vstr(j.A, a) + "~" + j.e.vstr(j.B, b)
	if v, ok := j.strs[key]; ok {
		return v
	}
	if a.Const {
		j.changed = true
	}
	v := StrV{ID: j.e.sym("str"), Len: j.lin(strLen(a), strLen(b)), Cnt: &Content{ID: j.e.id()}}
	j.strs[key] = v
	return v
}

func (j *joiner) content(a, b *Content, el types.Type) *Content {
	if a == b {
		j.keepContent(a)
		return a
	}
	if j.sameShape(a, b, 0) {
		if r, ok := j.contents[[2]*Content{a, b}]; ok {
			return r
		}
		r := &Content{ID: a.ID, Zero: a.Zero, Sum: a.Sum}
		for i := range a.W {
			x, y := a.W[i], b.W[i]
			w := Write{Off: j.lin(x.Off, y.Off), Len: j.lin(x.Len, y.Len), Havoc: x.Havoc}
			if x.Src != nil {
				w.SrcOff = j.lin(x.SrcOff, y.SrcOff)
				w.Src = j.content(x.Src, y.Src, el)
			} else if x.Havoc == 0 {
				w.Val = j.val(x.Val, y.Val)
			}
			r.W = append(r.W, w)
		}
		if j.contents == nil {
			j.contents = map[[2]*Content]*Content{}
		}
		j.contents[[2]*Content{a, b}] = r
		return r
	}
	if isSliceT(el) {
		sa, ok1 := elemSum(j.A, a)
		sb, ok2 := elemSum(j.B, b)
		if ok1 && ok2 {
			n := &ElemSum{NonNil: sa.NonNil && sb.NonNil, Min: roundDown(min(sa.Min, sb.Min)), Max: roundUp(max(sa.Max, sb.Max))}
			if a.Sum == nil || *a.Sum != *n || len(a.W) > 0 {
				j.changed = true
			}
			return &Content{ID: j.joinID(fmt.Sprintf("c%p~%p", a, b)), Sum: n}
		}
	}
	if len(a.W) > 0 || a.Zero {
		j.changed = true
	}
	if _, _, ok := intInfo(el); !ok {
		// references: only a fresh unknown content is left
		j.changed = true
	}
	key := fmt.Sprintf("c%p~%p", a, b)
	return &Content{ID: j.joinID(key)}
}

// sameShape: the contents were built by the same kinds of writes on the same base.
func (j *joiner) sameShape(a, b *Content, depth int) bool {
	if a == b {
		return true
	}
	if depth > 12 || a.Zero != b.Zero || a.ID != b.ID && !a.Zero || a.Sum != b.Sum || len(a.W) != len(b.W) {
		return false
	}
	for i := range a.W {
		x, y := a.W[i], b.W[i]
		if (x.Src == nil) != (y.Src == nil) || x.Havoc != y.Havoc || x.Src != nil && !j.sameShape(x.Src, y.Src, depth+1) {
			return false
		}
	}
	return true
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// liftNils writes the nil lists in structs as empty lists that are known to be nil, so that they join with others.
func (e *Eng) liftNils(st *State) {
	ids := make([]ObjID, 0, len(st.heap))
	for id := range st.heap {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, k int) bool { return ids[i] < ids[k] })
	for _, id := range ids {
		o := st.heap[id]
		t := o.T
		v, ok2 := o.Val.(StructV)
		if t == nil || !ok2 {
			continue
		}
		ty, ok := t.Underlying().(*types.Struct)
		if !ok || ty.NumFields() > len(v.F) {
			continue
		}
		var f []Val
		for i := 0; i < ty.NumFields(); i++ {
			sl, ok := v.F[i].(SliceV)
			if !ok || !sl.Nil {
				continue
			}
			el, ok := ty.Field(i).Type().Underlying().(*types.Slice)
			if !ok || !isSliceT(el.Elem()) {
				continue
			}
			if f == nil {
				f = append([]Val{}, v.F...)
			}
			n := e.newSlice(st, el.Elem(), K(0), K(0), "nil")
			n.Maybe = e.symIn("isnil", ip(1), ip(1))
			f[i] = n
		}
		if f != nil {
			c := *o
			c.Val = StructV{f}
			st.heap[id] = &c
		}
	}
}

// summarisable: an array grown by append (a copy of an earlier array is part of it), or of many elements.
func summarisable(c *Content) bool {
	n := 0
	for _, w := range c.W {
		if w.Src != nil {
			n += 2
		}
		n++
	}
	return n >= 3
}

// elemSum describes every element ever put into an array (its zero elements past the length excluded).
func elemSum(st *State, c *Content) (ElemSum, bool) {
	r := ElemSum{NonNil: true, Min: maxLen, Max: 0}
	if c.Sum != nil {
		r = *c.Sum
	} else if !c.Zero {
		return ElemSum{Max: maxLen}, true
	}
	add := func(x ElemSum) {
		r.NonNil = r.NonNil && x.NonNil
		r.Min, r.Max = min(r.Min, x.Min), max(r.Max, x.Max)
	}
	for _, w := range c.W {
		switch {
		case w.Havoc != 0:
			return ElemSum{Max: maxLen}, true
		case w.Src != nil:
			x, ok := elemSum(st, w.Src)
			if !ok {
				return r, false
			}
			add(x)
		default:
			v, ok := st.resolve(w.Val).(SliceV)
			if !ok {
				return r, false
			}
			if v.Nil {
				add(ElemSum{})
				continue
			}
			x := ElemSum{NonNil: v.Maybe == 0 || st.num.EntailsEq(S(v.Maybe)), Max: maxLen}
			x.Min, _ = st.num.Min(v.Len)
			if m, ok := st.num.Max(v.Len); ok {
				x.Max = m
			}
			add(x)
		}
	}
	return r, true
}

func roundDown(n int64) int64 {
	r := int64(0)
	for _, t := range []int64{1, 2, 3, 4, 5, 8} {
		if t <= n {
			r = t
		}
	}
	return r
}

func roundUp(n int64) int64 {
	for _, t := range []int64{0, 255, 1024, 65535, 65539, 1 << 20} {
		if n <= t {
			return t
		}
	}
	return maxLen
}

func (j *joiner) keepContent(c *Content) {
	for _, w := range c.W {
		j.keep(w.Off)
		j.keep(w.Len)
		j.keep(w.SrcOff)
		if w.Src != nil {
			j.keepContent(w.Src)
		} else if w.Val != nil {
			j.keepVal(w.Val)
		}
	}
}

func (j *joiner) keepVal(v Val) {
	v = j.A.resolve(v)
	switch v := v.(type) {
	case IntV:
		j.keep(v.L)
	case BoolV:
		j.keep(v.L)
	case StrV:
		j.keep(v.Len)
	case SliceV:
		if !v.Nil {
			j.keep(v.Off)
			j.keep(v.Len)
			j.keep(v.Cap)
			if v.Maybe != 0 {
				j.live[v.Maybe] = true
			}
			if _, ok := j.objAB[v.Obj]; !ok && j.A.heap[v.Obj] != nil && j.B.heap[v.Obj] != nil {
				j.obj(v.Obj, v.Obj)
			}
		}
	case PtrV:
		if _, ok := j.objAB[v.Obj]; !ok && j.A.heap[v.Obj] != nil && j.B.heap[v.Obj] != nil {
			j.obj(v.Obj, v.Obj)
		}
	case MapV:
		if _, ok := j.objAB[v.Obj]; !ok && j.A.heap[v.Obj] != nil && j.B.heap[v.Obj] != nil {
			j.obj(v.Obj, v.Obj)
		}
	case StructV:
		for _, f := range v.F {
			j.keepVal(f)
		}
	case IfaceV:
		if v.T != nil {
			j.keepVal(v.V)
		}
	case FuncV:
		for _, b := range v.Bind {
			j.keepVal(b)
		}
	}
}

type joinOpts struct {
	widen bool
	apart bool  // states whose elements are known to differ are not joined
	tmpl  bool  // relate what changes to lengths
	inv   []Lin // facts on entry to the loop: they stay true, as values do not change
	xa    Val   // pending values
	xb    Val
}

// join merges two states of one shape. changed is false when B is included in A.
func (e *Eng) join(A, B *State, o joinOpts) (R *State, x Val, changed bool, fail string) {
	j := &joiner{e: e, A: A, B: B, objAB: map[ObjID]ObjID{}, phis: map[string]Sym{}, lazies: map[string]LazyV{},
		ids: map[string]int{}, live: map[Sym]bool{}, strs: map[string]Val{}}
	if len(A.frames) != len(B.frames) {
		return nil, nil, false, "stack depth"
	}
	R = &State{num: NewNum(), heap: map[ObjID]*Obj{}, ghosts: map[string]Val{}, lazy: map[int]Val{}, strs: map[Sym]StrK{}}
	j.R = R
	R.trace = A.trace
	for i, fa := range A.frames {
		fb := B.frames[i]
		fr := &Frame{fn: fa.fn, site: fa.site, env: map[ssa.Value]Val{}}
		for _, k := range sortedEnv(fa) {
			vb, ok := fb.env[k]
			if !ok {
				continue
			}
			fr.env[k] = j.val(fa.env[k], vb)
		}
		if len(fa.defers) != len(fb.defers) {
			return nil, nil, false, "defers"
		}
		for k, d := range fa.defers {
			nd := deferred{fn: j.val(d.fn, fb.defers[k].fn), inst: d.inst}
			for m := range d.args {
				nd.args = append(nd.args, j.val(d.args[m], fb.defers[k].args[m]))
			}
			fr.defers = append(fr.defers, nd)
		}
		R.frames = append(R.frames, fr)
	}
	for _, k := range ghostKeys(A) {
		vb, ok := B.ghosts[k]
		if !ok {
			return nil, nil, false, "ghost " + k
		}
		R.ghosts[k] = j.val(A.ghosts[k], vb)
	}
	if len(B.ghosts) != len(A.ghosts) {
		return nil, nil, false, "ghosts"
	}
	x = j.val(o.xa, o.xb)
	for _, g := range e.globOrder {
		if id, ok := e.globs[g]; ok {
			if A.heap[id] != nil && B.heap[id] != nil {
				j.obj(id, id)
			}
		}
	}
	for i := 0; i < len(j.queue); i++ {
		a := j.queue[i]
		b := j.objAB[a]
		oa, ob := A.heap[a], B.heap[b]
		if oa == nil || ob == nil {
			if oa == nil && ob == nil {
				continue
			}
			return nil, nil, false, "object"
		}
		n := *oa
		n.Val = j.val(oa.Val, ob.Val)
		R.heap[a] = &n
	}
	// two objects of A may not map to one of B
	inv := map[ObjID]ObjID{}
	for a, b := range j.objAB {
		if o, ok := inv[b]; ok && o != a {
			j.bad("aliasing differs")
		}
		inv[b] = a
	}
	if j.fail != "" {
		return nil, nil, false, j.fail
	}
	for id, v := range A.lazy {
		if w, ok := B.lazy[id]; ok {
			_, n1 := v.(NilV)
			_, n2 := w.(NilV)
			if n1 && n2 {
				R.lazy[id] = v
			} else if !n1 && !n2 {
				// the same resolution, by construction of materialize, when the objects agree
				if fmt.Sprint(v) == fmt.Sprint(w) {
					keep := true
					if p, ok := v.(PtrV); ok && R.heap[p.Obj] == nil {
						keep = false
					}
					if p, ok := v.(MapV); ok && R.heap[p.Obj] == nil {
						keep = false
					}
					if keep {
						R.lazy[id] = v
					}
				}
			}
		}
	}
	for s, k := range A.strs {
		if k2, ok := B.strs[s]; ok {
			if k.Is && k2.Is && k.Eq == k2.Eq {
				R.strs[s] = k
			} else if !k.Is && !k2.Is {
				var ne []string
				for _, a := range k.Ne {
					for _, b := range k2.Ne {
						if a == b {
							ne = append(ne, a)
						}
					}
				}
				if len(ne) > 0 {
					R.strs[s] = StrK{Ne: ne}
				}
				if len(ne) != len(k.Ne) {
					j.changed = true
				}
			} else {
				j.changed = true
			}
		} else {
			j.changed = true
		}
	}
	var nch bool
	j.apart = o.apart
	j.elements()
	if j.fail != "" {
		return nil, nil, false, j.fail
	}
	R.num, nch = e.joinNum(j, o.widen, o.tmpl, o.inv)
	return R, x, nch || j.changed, ""
}

// assumeDef adds phi == l, eliminating a dead symbol of l when there is one.
func assumeDef(n *Num, phi Sym, l Lin, dead func(Sym) bool) {
	l = n.Norm(l)
	for _, t := range l.T {
		if (t.C == 1 || t.C == -1) && dead(t.S) {
			// t.C*s + rest = phi  =>  s = t.C*(phi - rest)
			var r Lin
			if guard(func() {
				rest := l.AddMul(S(t.S), -t.C)
				r = S(phi).Sub(rest).Mul(t.C)
				n.solve(t.S, r)
			}) {
				return
			}
		}
	}
	guard(func() { n.solve(phi, l) })
}

// project drops the dead symbols of a store.
func project(n *Num, live map[Sym]bool) (cons []Lin, eqs []Lin) {
	dead := func(s Sym) bool { return !live[s] }
	// equalities: orient so that dead symbols are solved for
	for {
		again := false
		var ks []int
		for k := range n.eqs {
			ks = append(ks, int(k))
		}
		sort.Ints(ks)
		for _, k := range ks {
			s := Sym(k)
			r, ok := n.eqs[s]
			if !ok || dead(s) {
				continue
			}
			for _, t := range r.T {
				if dead(t.S) && (t.C == 1 || t.C == -1) {
					ok := guard(func() {
						rest := r.AddMul(S(t.S), -t.C)
						nr := S(s).Sub(rest).Mul(t.C)
						delete(n.eqs, s)
						n.solve(t.S, nr)
					})
					if ok {
						again = true
					} else {
						delete(n.eqs, s)
					}
					break
				}
			}
			if again {
				break
			}
		}
		if !again {
			break
		}
	}
	var ks []int
	for k := range n.eqs {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		s := Sym(k)
		if dead(s) {
			continue
		}
		r := n.eqs[s]
		bad := false
		for _, t := range r.T {
			if dead(t.S) {
				bad = true
			}
		}
		if bad {
			// s = r with a dead symbol of a non-unit coefficient: keep it as two inequalities for elimination
			guard(func() {
				d := S(s).Sub(r)
				n.ineqs = append(n.ineqs[:len(n.ineqs):len(n.ineqs)], d, d.Neg())
			})
			continue
		}
		guard(func() { eqs = append(eqs, S(s).Sub(r)) })
	}
	// inequalities: eliminate dead symbols that occur rarely
	ineqs := append([]Lin{}, n.ineqs...)
	for round := 0; round < 40; round++ {
		occ := map[Sym][2]int{}
		for _, c := range ineqs {
			for _, t := range c.T {
				if dead(t.S) {
					o := occ[t.S]
					if t.C > 0 {
						o[0]++
					} else {
						o[1]++
					}
					occ[t.S] = o
				}
			}
		}
		if len(occ) == 0 {
			break
		}
		best, bestN := Sym(-1), 1<<30
		for s, o := range occ {
			b := n.bound(s)
			p, q := o[0], o[1]
			if b.hasLo {
				p++
			}
			if b.hasHi {
				q++
			}
			if x := p*q - p - q; x < bestN || (x == bestN && s < best) {
				best, bestN = s, x
			}
		}
		var pos, neg, rest []Lin
		for _, c := range ineqs {
			switch k := c.Coef(best); {
			case k > 0:
				pos = append(pos, c)
			case k < 0:
				neg = append(neg, c)
			default:
				rest = append(rest, c)
			}
		}
		b := n.bound(best)
		if b.hasLo {
			pos = appendLin(pos, func() Lin { return S(best).SubK(b.lo) })
		}
		if b.hasHi {
			neg = append(neg, Lin{T: []Term{{best, -1}}, K: b.hi})
		}
		if len(pos)*len(neg) <= 24 {
			for _, p := range pos {
				for _, q := range neg {
					cp, cq := p.Coef(best), -q.Coef(best)
					rest = appendLin(rest, func() Lin { return p.Mul(cq).Add(q.Mul(cp)).divGcd() })
				}
			}
		}
		ineqs = rest
	}
	for _, c := range ineqs {
		if len(c.T) == 0 {
			continue
		}
		bad := false
		for _, t := range c.T {
			if dead(t.S) {
				bad = true
			}
		}
		if !bad {
			cons = append(cons, c)
		}
	}
	ks = nil
	for s := range n.bounds {
		ks = append(ks, int(s))
	}
	sort.Ints(ks)
	for _, k := range ks {
		s := Sym(k)
		if dead(s) {
			continue
		}
		if _, solved := n.eqs[s]; solved {
			continue
		}
		b := n.bounds[s]
		r := symRanges[s]
		if b.hasLo && !(r.hasLo && r.lo >= b.lo) {
			cons = appendLin(cons, func() Lin { return S(s).SubK(b.lo) })
		}
		if b.hasHi && !(r.hasHi && r.hi <= b.hi) {
			cons = append(cons, Lin{T: []Term{{s, -1}}, K: b.hi})
		}
	}
	return
}

var thresholds = []int64{1 << 42, 65535, 255, 64, 32, 16, 8, 7, 6, 5, 4, 3, 2, 1, 0, -1}

var joinCount int

// keepQuotients keeps the high parts of live values that equalities are stated with: they are
// functions of the values, so their definitions hold on either side.
func (j *joiner) keepQuotients(A, B *Num) (rems []Lin) {
	cand := map[Sym]bool{}
	for _, n := range []*Num{A, B} {
		for s, l := range n.eqs {
			cand[s] = true
			for _, t := range l.T {
				cand[t.S] = true
			}
		}
		for _, l := range n.diseqs {
			for _, t := range l.T {
				cand[t.S] = true
			}
		}
		for _, l := range n.ineqs {
			for _, t := range l.T {
				d, ok := j.e.hiOf[t.S]
				if !ok {
					continue
				}
				// not its definition
				lo := d.L.Sub(S(t.S).Mul(pow2(d.k)))
				if !(sameTerms(l, lo) && l.K >= lo.K) && !(sameTermsNeg(l, lo) && l.K >= pow2(d.k)-1-lo.K) {
					cand[t.S] = true
				}
			}
		}
	}
	var ys []Sym
	for y := range cand {
		if _, ok := j.e.hiOf[y]; ok && !j.live[y] {
			ys = append(ys, y)
		}
	}
	sort.Slice(ys, func(a, b int) bool { return ys[a] < ys[b] })
	for _, y := range ys {
		d := j.e.hiOf[y]
		ok := len(d.L.T) > 0
		for _, t := range d.L.T {
			ok = ok && j.live[t.S]
		}
		if !ok {
			continue
		}
		j.live[y] = true
		for _, n := range []*Num{A, B} {
			guard(func() { n.AssumeGe(d.L.Sub(S(y).Mul(pow2(d.k)))) })
			guard(func() { n.AssumeGe(S(y).Mul(pow2(d.k)).AddK(pow2(d.k) - 1).Sub(d.L)) })
		}
	}
	// two high parts of one value
	groups := map[string][]Sym{}
	var keys []string
	for y := range j.live {
		if d, ok := j.e.hiOf[y]; ok {
			k := d.L.Key()
			if groups[k] == nil {
				keys = append(keys, k)
			}
			groups[k] = append(groups[k], y)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g := groups[k]
		if len(g) < 2 || len(g) > 6 {
			continue
		}
		sort.Slice(g, func(a, b int) bool { return j.e.hiOf[g[a]].k < j.e.hiOf[g[b]].k })
		for i := 1; i < len(g); i++ {
			x, y := g[i-1], g[i]
			m := j.e.hiOf[y].k - j.e.hiOf[x].k
			if m <= 0 {
				continue
			}
			for _, n := range []*Num{A, B} {
				guard(func() { n.AssumeGe(S(x).Sub(S(y).Mul(pow2(m)))) })
				guard(func() { n.AssumeGe(S(y).Mul(pow2(m)).AddK(pow2(m) - 1).Sub(S(x))) })
			}
			if m < 40 {
				rems = append(rems, S(x).Sub(S(y).Mul(pow2(m))))
			}
		}
	}
	return
}

// entryFacts are the constraints that all states entail.
func entryFacts(entry []*State) (out []Lin) {
	if len(entry) == 0 {
		return nil
	}
	n := entry[0].num
	var all []Lin
	var ss []int
	for s := range n.bounds {
		ss = append(ss, int(s))
	}
	sort.Ints(ss)
	for _, k := range ss {
		b := n.bounds[Sym(k)]
		if b.hasLo {
			guard(func() { all = append(all, S(Sym(k)).SubK(b.lo)) })
		}
		if b.hasHi {
			all = append(all, K(b.hi).Sub(S(Sym(k))))
		}
	}
	for _, c := range n.ineqs {
		if len(c.T) <= 3 {
			all = append(all, c)
		}
	}
	for _, c := range all {
		if len(out) >= 60 {
			break
		}
		ok := true
		for _, s := range entry[1:] {
			ok = ok && s.num.Entails(c)
		}
		if ok {
			out = append(out, c)
		}
	}
	return
}

func (e *Eng) joinNum(j *joiner, widen, tmpl bool, inv []Lin) (*Num, bool) {
	joinCount++
	A, B := j.A.num.Clone(), j.B.num.Clone()
	dead := func(s Sym) bool { return !j.live[s] }
	for i, s := range j.phiS {
		assumeDef(A, s, j.phiA[i], dead)
		assumeDef(B, s, j.phiB[i], dead)
	}
	rems := j.keepQuotients(A, B)
	consA, eqA := project(A.Clone(), j.live)
	consB, eqB := project(B.Clone(), j.live)
	R := NewNum()
	changed := false
	if e.debug {
		println("JOIN widen", widen, fmt.Sprint(j.B.trace))
		if os.Getenv("FULL") != "" {
			println("FULLB", j.B.num.String(e.name))
		}
		for _, c := range consA {
			println("   A", c.Str(e.name))
		}
		for _, c := range eqA {
			println("   A=", c.Str(e.name))
		}
		for _, c := range consB {
			println("   B", c.Str(e.name))
		}
		for _, c := range eqB {
			println("   B=", c.Str(e.name))
		}
		defer func() {
			println(R.String(e.name))
		}()
	}
	// affine equalities of both
	for _, q := range affineMeet(A, eqB) {
		R.AssumeEq(q)
	}
	for _, q := range eqA {
		if !B.EntailsEq(q) {
			changed = true
			break
		}
	}
	add := func(c Lin) {
		if len(c.T) > 1 && (c.K > 1<<62 || c.K < -1<<62) {
			return
		}
		if !R.Entails(c) {
			R.AssumeGe(c)
		}
	}
	var candA, candB []Lin
	candA = append(candA, consA...)
	for _, q := range eqA {
		candA = append(candA, q, q.Neg())
	}
	for _, c := range candA {
		if B.Entails(c) {
			add(c)
		} else {
			changed = true
			if !widen {
				// weaken the constant
				if v, ok := B.Min(c); ok && v < 0 && v > -(1<<40) {
					guard(func() { add(c.SubK(v)) })
				}
			}
		}
	}
	if !widen {
		candB = append(candB, consB...)
		for _, q := range eqB {
			candB = append(candB, q, q.Neg())
		}
		for _, c := range candB {
			if A.Entails(c) {
				add(c)
			} else if v, ok := A.Min(c); ok && v < 0 && v > -(1<<40) {
				guard(func() { add(c.SubK(v)) })
			}
		}
	}
	if widen {
		for _, c := range inv {
			ok := true
			for _, t := range c.T {
				ok = ok && j.live[t.S]
			}
			if ok && A.Entails(c) && B.Entails(c) {
				add(c)
			}
		}
	}
	if widen && tmpl {
		// the order of what changes
		n := 0
		for _, s := range j.phiS {
			for _, t := range j.phiS {
				if s == t || n > 80 {
					continue
				}
				n++
				for _, k := range []int64{1, 0} {
					if c := S(s).Sub(S(t)).SubK(k); A.Entails(c) && B.Entails(c) {
						add(c)
						break
					}
				}
			}
		}
	}
	if !widen {
		// the bits between two high parts
		for _, r := range rems {
			for _, x := range []Lin{r, r.Neg()} {
				a, ok1 := A.Min(x)
				b, ok2 := B.Min(x)
				if ok1 && ok2 {
					guard(func() { add(x.SubK(min(a, b))) })
				}
			}
		}
	}
	for _, s := range j.phiS {
		la, ok1 := A.Min(S(s))
		lb, ok2 := B.Min(S(s))
		if m := min(la, lb); ok1 && ok2 {
			for _, t := range thresholds {
				if t <= m {
					add(S(s).SubK(t))
					break
				}
			}
		}
		ha, ok1 := A.Max(S(s))
		hb, ok2 := B.Max(S(s))
		if ok1 && ok2 && ha == hb && ha < 1<<40 {
			// both sides came through one test
			add(K(ha).Sub(S(s)))
		} else if m := max(ha, hb); ok1 && ok2 {
			for i := len(thresholds) - 1; i >= 0; i-- {
				if t := thresholds[i]; t >= m && (!widen || t <= 1 || t >= 255) {
					add(K(t).Sub(S(s)))
					break
				}
			}
		}
	}
	if tmpl && !widen {
		// an inequality of one side with a variable put in that is a constant there
		for side := 0; side < 2; side++ {
			cons, eqs, own, other := consA, eqA, A, B
			if side == 1 {
				cons, eqs, own, other = consB, eqB, B, A
			}
			_ = own
			n := 0
			for _, q := range eqs {
				if len(q.T) != 1 || q.T[0].C != 1 && q.T[0].C != -1 {
					continue
				}
				isPhi := false
				for _, s := range j.phiS {
					isPhi = isPhi || s == q.T[0].S
				}
				if !isPhi {
					continue
				}
				for _, c := range cons {
					if len(c.T) < 2 || n > 100 {
						continue
					}
					n++
					for _, k := range []int64{1, -1} {
						guard(func() {
							x := c.AddMul(q, k)
							if other.Entails(x) && !R.Entails(x) {
								R.AssumeGe(x)
							}
						})
					}
				}
			}
		}
		// the rates of what starts from constants
		rates := 0
		for _, s := range j.phiS {
			na := A.Norm(S(s))
			if !na.IsConst() || rates > 60 {
				continue
			}
			for _, t := range j.phiS {
				nb := A.Norm(S(t))
				if !nb.IsConst() || s == t || rates > 60 {
					continue
				}
				if B.Entails(S(t).Sub(S(s)).SubK(nb.K - na.K)) {
					continue
				}
				rates++
				for _, r := range [][2]int64{{2, 1}, {5, 4}} {
					if c := S(t).SubK(nb.K).Mul(r[0]).AddMul(S(s).SubK(na.K), -r[1]); B.Entails(c) {
						add(c)
					}
				}
			}
		}
		// difference templates between what changes and what is a length
		var lens []Sym
		for s := range j.live {
			if r := symRanges[s]; !r.hasHi || r.hi >= maxLen {
				lens = append(lens, s)
			}
		}
		sort.Slice(lens, func(a, b int) bool { return lens[a] < lens[b] })
		n := 0
		for _, s := range j.phiS {
			for _, l := range lens {
				if l == s || n > 80 {
					continue
				}
				n++
				for _, c := range []Lin{S(l).Sub(S(s)), S(s).Sub(S(l))} {
					va, ok1 := A.Min(c)
					if !ok1 {
						continue
					}
					vb, ok2 := B.Min(c)
					if v := min(va, vb); ok2 && v > -(1<<20) && v < 1<<20 {
						guard(func() { add(c.SubK(v)) })
					}
				}
			}
		}
	}
	for _, d := range append(append([]Lin{}, A.diseqs...), B.diseqs...) {
		ok := true
		for _, t := range d.T {
			if dead(t.S) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		if A.EntailsNe(d) && B.EntailsNe(d) {
			R.AssumeNe(d)
		}
	}
	for _, d := range A.diseqs {
		ok := true
		for _, t := range d.T {
			if dead(t.S) {
				ok = false
			}
		}
		if ok && !B.EntailsNe(d) {
			changed = true
		}
	}
	return R, changed
}

// affineMeet returns the equalities entailed (affinely) by A and by the equalities eqB.
func affineMeet(A *Num, eqB []Lin) []Lin {
	var out []Lin
	type row struct {
		v, c Lin
		s    Sym // pivot; -1: the constant
	}
	coef := func(l Lin, s Sym) int64 {
		if s < 0 {
			return l.K
		}
		return l.Coef(s)
	}
	var rows []row
	for _, q := range eqB {
		guard(func() {
			v, comb := A.Norm(q), q
			for _, r := range rows {
				k, p := coef(v, r.s), coef(r.v, r.s)
				if k == 0 {
					continue
				}
				g := gcdI(k, p)
				v = v.Mul(p/g).AddMul(r.v, -k/g)
				comb = comb.Mul(p/g).AddMul(r.c, -k/g)
			}
			switch {
			case len(v.T) > 0:
				rows = append(rows, row{v, comb, v.T[0].S})
			case v.K != 0:
				rows = append(rows, row{v, comb, -1})
			case len(comb.T) > 0:
				out = append(out, comb)
			}
		})
	}
	return out
}

// prune projects a state to its live symbols.
func (e *Eng) prune(st *State, x Val) *State {
	R, _, _, fail := e.join(st, st, joinOpts{xa: x, xb: x})
	if fail != "" {
		return st
	}
	return R
}
