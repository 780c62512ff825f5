package main

// Calls: dispatch, builtins and models of library functions.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Eng) doCall(s *State, c *ssa.CallCommon, site ssa.CallInstruction) []vs {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	var fn Val
	if c.IsInvoke() {
		fn = e.val(s, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fn = e.val(s, c.Value)
	}
	return e.callVal(s, c, fn, args, site)
}

func (e *Eng) callVal(s *State, c *ssa.CallCommon, fn Val, args []Val, site ssa.CallInstruction) []vs {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return e.builtin(s, b, c, args, site)
	}
	fn = s.resolve(fn)
	if c.IsInvoke() {
		switch v := fn.(type) {
		case NilV:
			e.oblige(s, "nil-deref", site, boolC(false), "method call on a nil interface")
			return nil
		case LazyV:
			n, non := e.splitNil(s, v)
			e.oblige(n, "nil-deref", site, boolC(false), "method call on a nil interface ("+e.lazyT[v.ID].Tag+")")
			return e.callVal(non, c, non.resolve(v), args, site)
		case IfaceV:
			e.record2("nil-deref", site)
			if v.T == nil {
				if e.hooks.OnInvoke != nil {
					if ok, r := e.hooks.OnInvoke(s, v, c.Method, args, site); ok {
						return r
					}
				}
				if c.Method.Name() == "Error" || c.Method.Name() == "String" {
					return []vs{{s, e.havoc(s, types.Typ[types.String], "errtext")}}
				}
				e.note("invoke " + c.Method.FullName())
				return []vs{{s, e.havocResult(s, c.Signature())}}
			}
			m := e.prog.LookupMethod(v.T, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				panic(abort{"no method " + c.Method.Name() + " on " + v.T.String()})
			}
			return e.callFn(s, m, append([]Val{v.V}, args...), nil, site)
		}
		panic(abort{fmt.Sprintf("invoke on %T at %s", fn, e.pos(site))})
	}
	switch f := fn.(type) {
	case FuncV:
		if f.Fn == nil {
			if e.hooks.OnFunc != nil {
				if ok, r := e.hooks.OnFunc(s, f, c.Signature(), args, site); ok {
					return r
				}
			}
			e.note("call of an opaque function")
			return []vs{{s, e.havocResult(s, c.Signature())}}
		}
		return e.callFn(s, f.Fn, args, f.Bind, site)
	case NilV:
		e.oblige(s, "nil-deref", site, boolC(false), "call of a nil function")
		return nil
	case LazyV:
		n, non := e.splitNil(s, f)
		e.oblige(n, "nil-deref", site, boolC(false), "call of a nil function ("+e.lazyT[f.ID].Tag+")")
		return e.callVal(non, c, non.resolve(f), args, site)
	}
	panic(abort{fmt.Sprintf("call of %T at %s", fn, e.pos(site))})
}

func (e *Eng) note(s string) {
	e.unmodelled[s] = true
}

func (e *Eng) havocResult(s *State, sig *types.Signature) Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return e.havoc(s, r.At(0).Type(), "result")
	}
	return e.havoc(s, r, "result")
}

func (e *Eng) callFn(s *State, fn *ssa.Function, args, bind []Val, site ssa.CallInstruction) []vs {
	e.calls[fn.String()]++
	if fn.Pkg == nil || fn.Pkg.Pkg.Path() == vpPath {
		if o := fn.Origin(); fn.Pkg != nil || o != nil && o.Pkg != nil && o.Pkg.Pkg.Path() == vpPath {
			return e.vpCall(s, fn, args, site)
		}
	}
	if site != nil && e.isClient(site.Parent()) && !e.isClient(fn) {
		e.target, e.targetPos = fn.String(), e.posOf(fn.Pos())
	}
	var rs []vs
	handled := false
	if e.hooks.OnCall != nil {
		handled, rs = e.hooks.OnCall(s, fn, args, site)
	}
	if !handled {
		handled, rs = e.model(s, fn, args, site)
	}
	if !handled {
		rs = e.call(s, fn, args, bind, site)
	}
	if e.hooks.OnRet != nil {
		var out []vs
		for _, r := range rs {
			for _, st := range e.hooks.OnRet(r.st, fn, args, r.v, site) {
				out = append(out, vs{st, r.v})
			}
		}
		rs = out
	}
	return rs
}

func (e *Eng) opaqueErr(key string) Val {
	return IfaceV{ID: e.id()}
}

func (e *Eng) isRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return e.repo[fn.Pkg.Pkg]
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return e.repo[o.Pkg.Pkg]
	}
	if fn.Parent() != nil {
		return e.isRepo(fn.Parent())
	}
	// wrappers and bound methods
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return e.repo[fn.Object().Pkg()]
	}
	return true
}

func (e *Eng) model(s *State, fn *ssa.Function, args []Val, site ssa.CallInstruction) (bool, []vs) {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	one := func(v Val) (bool, []vs) { return true, []vs{{s, v}} }
	if e.isRepo(fn) {
		if e.anySPS && (name == modPath+"/avc.ParseSPS" || name == modPath+"/hevc.ParseSPS") {
			// A15 and A16 claim that it never panics; anything may come back
			bad := s.Clone()
			t := fn.Signature.Results().At(0).Type()
			return true, []vs{
				{s, TupleV{[]Val{e.havoc(s, t, "sps"), NilV{}}}},
				{bad, TupleV{[]Val{e.havoc(bad, t, "sps"), e.opaqueErr("sps")}}},
			}
		}
		if e.tape {
			return e.tapeCall(s, fn, args, site)
		}
		return false, nil
	}
	if strings.Contains(name, "sync/atomic.") {
		if ok, r := e.atomicOp(s, fn, name, args, site); ok {
			return true, r
		}
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		return one(e.opaqueErr(name))
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf":
		return one(TupleV{[]Val{e.havoc(s, types.Typ[types.Int], "n"), NilV{}}})
	case "encoding/hex.EncodeToString":
		n := sliceLen(args[0].(SliceV))
		return one(StrV{ID: e.sym("hex"), Len: n.Mul(2), Cnt: &Content{ID: e.id()}})
	case "strconv.Itoa":
		n := e.freshIn(s, "len", ip(1), ip(20))
		return one(StrV{ID: e.sym("itoa"), Len: n, Cnt: &Content{ID: e.id()}})
	case "bytes.Equal":
		a, b := args[0].(SliceV), args[1].(SliceV)
		return e.bytesEqual(s, a, b)
	case "bytes.Replace", "bytes.ReplaceAll":
		in := args[0].(SliceV)
		if !e.tape {
			// known bytes
			all, o, nw, k := e.constBytes(s, in, 256), e.constBytes(s, args[1].(SliceV), 8), e.constBytes(s, args[2].(SliceV), 8), K(-1)
			if len(args) > 3 {
				k = s.num.Norm(args[3].(IntV).L)
			}
			if all != "?" && o != "?" && nw != "?" && k.IsConst() {
				all = strings.Replace(all, o, nw, int(k.K))
				n := K(int64(len(all)))
				r := e.newSlice(s, types.Typ[types.Uint8], n, n, "bytes.Replace")
				a := s.heap[r.Obj].Val.(ArrV)
				a.C = &Content{ID: e.id(), Zero: true}
				for i := 0; i < len(all); i++ {
					a.C.W = append(a.C.W, Write{Off: K(int64(i)), Len: K(1), Val: IntV{K(int64(all[i]))}})
				}
				s.setObj(r.Obj, a)
				return one(r)
			}
		}
		l := e.freshIn(s, "len", ip(0), ip(maxLen))
		// at most one replacement per byte of a non-empty pattern; the result is not longer when new is not longer
		if o, nw := args[1].(SliceV), args[2].(SliceV); s.num.Entails(sliceLen(o).Sub(sliceLen(nw))) {
			s.num.AssumeGe(sliceLen(in).Sub(l))
			if s.num.EntailsEq(sliceLen(o).Sub(sliceLen(nw))) {
				s.num.AssumeEq(sliceLen(in).Sub(l))
			}
		}
		r := e.newSlice(s, types.Typ[types.Uint8], l, l, "bytes.Replace")
		a := s.heap[r.Obj].Val.(ArrV)
		a.C = &Content{ID: e.id()}
		s.setObj(r.Obj, a)
		if e.tape {
			n := Lin(K(-1))
			if len(args) > 3 {
				n = args[3].(IntV).L
			}
			e.replaced[a.C.ID] = replacement{in, e.constBytes(s, args[1].(SliceV), 8), e.constBytes(s, args[2].(SliceV), 8), n}
		}
		return one(r)
	case "bytes.NewReader":
		// a reader over the slice: keep the concrete struct
		return false, nil
	case "sort.SliceStable", "sort.Slice":
		return e.sortModel(s, args, name == "sort.SliceStable", site)
	case "(*sync.Pool).Get":
		// a pooled object or a new one: the result of New
		st, p := e.deref(s, args[0], site)
		if st == nil {
			return true, nil
		}
		if v, ok := st.ghosts["!pool"]; ok && e.recycle {
			delete(st.ghosts, "!pool")
			return true, []vs{{st, v}}
		}
		return e.poolGet(st, p, fn, site)
	case "(*sync.Pool).Put":
		if e.recycle {
			v := s.resolve(args[1])
			if i, ok := v.(IfaceV); ok {
				s.ghosts["!pool"] = i
			}
		}
		return one(nil)
	case "time.Now":
		return one(e.havoc(s, fn.Signature.Results().At(0).Type(), "now"))
	case "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.Abs", "math.Sqrt":
		return one(FloatV{name + "(" + args[0].(FloatV).Key + ")"})
	case "math/rand.Intn":
		n := args[0].(IntV).L
		st := e.oblige(s, "panic", site, geB(n.AddK(-1)), "rand.Intn of a non-positive argument")
		if st == nil {
			return true, nil
		}
		r := e.freshIn(st, "rand", ip(0), ip(1<<63-1))
		st.num.AssumeGe(n.AddK(-1).Sub(r))
		return true, []vs{{st, IntV{r}}}
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	switch pkg {
	case "encoding/binary", "bytes", "math/bits", "slices", "cmp", "strings", "sort", "container/list", "unicode/utf8":
		if len(fn.Blocks) > 0 {
			return false, nil
		}
	}
	if pkg == "" {
		return false, nil
	}
	e.note("call " + name)
	return one(e.havocResult(s, fn.Signature))
}

func (e *Eng) poolGet(s *State, p PtrV, fn *ssa.Function, site ssa.CallInstruction) (bool, []vs) {
	o := s.heap[p.Obj]
	st, ok := o.T.Underlying().(*types.Struct)
	if !ok {
		return true, []vs{{s, e.havocResult(s, fn.Signature)}}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != "New" {
			continue
		}
		f := s.resolve(o.Val.(StructV).F[i])
		if fv, ok := f.(FuncV); ok && fv.Fn != nil {
			return true, e.callFn(s, fv.Fn, nil, fv.Bind, site)
		}
	}
	return true, []vs{{s, e.havocResult(s, fn.Signature)}}
}

func (e *Eng) bytesEqual(s *State, a, b SliceV) (bool, []vs) {
	la, lb := sliceLen(a), sliceLen(b)
	n := s.num.Norm(lb)
	if !n.IsConst() {
		a, b, la, lb = b, a, lb, la
		n = s.num.Norm(lb)
	}
	if !n.IsConst() || n.K > 16 {
		return true, []vs{{s, e.unknownBool("bytes.Equal")}}
	}
	var out []vs
	same, diff := e.split(s, eqB(la.Sub(lb)))
	if diff != nil {
		out = append(out, vs{diff, boolC(false)})
	}
	cur := []*State{}
	if same != nil {
		cur = append(cur, same)
	}
	for i := int64(0); i < n.K; i++ {
		var next []*State
		for _, st := range cur {
			for _, x := range e.index(st, a, K(i)) {
				for _, y := range e.index(x.st, b, K(i)) {
					eq, ne := e.split(y.st, eqB(x.v.(IntV).L.Sub(y.v.(IntV).L)))
					if ne != nil {
						out = append(out, vs{ne, boolC(false)})
					}
					if eq != nil {
						next = append(next, eq)
					}
				}
			}
		}
		cur = next
	}
	for _, st := range cur {
		out = append(out, vs{st, boolC(true)})
	}
	return true, out
}

// sortModel sorts a short slice by insertion, following every outcome of the comparisons; an unstable sort may
// leave equal elements in any order. The elements of another slice become unknown members of the old content.
func (e *Eng) sortModel(s *State, args []Val, stable bool, site ssa.CallInstruction) (bool, []vs) {
	v := s.resolve(args[0])
	if i, ok := v.(IfaceV); ok {
		v = s.resolve(i.V)
	}
	sl, ok := v.(SliceV)
	if !ok || sl.Nil {
		return true, []vs{{s, nil}}
	}
	less, ok := s.resolve(args[1]).(FuncV)
	n := s.num.Norm(sl.Len)
	if !ok || less.Fn == nil || !n.IsConst() || n.K > 8 {
		a := e.arrOf(s, sl)
		a.C = &Content{ID: e.id()}
		s.setObj(sl.Obj, a)
		return true, []vs{{s, nil}}
	}
	ask := func(st *State, i, j int64) (yes, no []*State) {
		for _, r := range e.callFn(st, less.Fn, []Val{IntV{K(i)}, IntV{K(j)}}, less.Bind, site) {
			y, f := e.split(r.st, r.st.resolve(r.v).(BoolV))
			if y != nil {
				yes = append(yes, y)
			}
			if f != nil {
				no = append(no, f)
			}
		}
		return
	}
	swap := func(st *State, i, j int64) []*State {
		var out []*State
		for _, x := range e.index(st, sl, K(i)) {
			for _, y := range e.index(x.st, sl, K(j)) {
				at := func(k int64) PtrV {
					return PtrV{sl.Obj, append(sl.Path[:len(sl.Path):len(sl.Path)], PathElem{Field: -1, Idx: sl.Off.AddK(k)})}
				}
				for _, a := range e.store(y.st, at(i), y.v) {
					out = append(out, e.store(a, at(j), x.v)...)
				}
			}
		}
		return out
	}
	var sink func(st *State, j int64) []*State
	sink = func(st *State, j int64) []*State {
		if j == 0 {
			return []*State{st}
		}
		yes, no := ask(st, j, j-1)
		var out []*State
		for _, y := range yes {
			for _, z := range swap(y, j, j-1) {
				out = append(out, sink(z, j-1)...)
			}
		}
		if stable {
			return append(out, no...)
		}
		for _, x := range no {
			before, same := ask(x, j-1, j)
			out = append(out, before...)
			for _, z := range same {
				out = append(out, z.Clone())
				for _, w := range swap(z, j, j-1) {
					out = append(out, sink(w, j-1)...)
				}
			}
		}
		return out
	}
	cur := []*State{s}
	for i := int64(1); i < n.K; i++ {
		var next []*State
		for _, st := range cur {
			next = append(next, sink(st, i)...)
		}
		cur = next
	}
	var out []vs
	for _, st := range cur {
		out = append(out, vs{st, nil})
	}
	return true, out
}

func (e *Eng) builtin(s *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, site ssa.CallInstruction) []vs {
	one := func(v Val) []vs { return []vs{{s, v}} }
	switch b.Name() {
	case "len", "cap":
		switch v := s.resolve(args[0]).(type) {
		case SliceV:
			if b.Name() == "len" {
				return one(IntV{sliceLen(v)})
			}
			return one(IntV{sliceCap(v)})
		case StrV:
			return one(IntV{strLen(v)})
		case ArrV:
			return one(IntV{v.Len})
		case PtrV:
			n := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			return one(IntV{K(n)})
		case NilV:
			return one(IntV{})
		case LazyV:
			if _, ok := e.lazyT[v.ID].T.Underlying().(*types.Map); ok {
				return one(IntV{e.freshIn(s, "len", ip(0), ip(maxLen))})
			}
		case MapV:
			m := s.heap[v.Obj].Val.(MapO)
			if m.Rest == 0 {
				return one(IntV{K(int64(len(m.Keys)))})
			}
			return one(IntV{e.freshIn(s, "len", ip(int64(0)), ip(maxLen))})
		}
	case "append":
		return e.doAppend(s, c, args, site)
	case "copy":
		return e.doCopy(s, args)
	case "print", "println":
		return one(nil)
	case "min", "max":
		cur := []vs{{s, args[0]}}
		for _, a := range args[1:] {
			var next []vs
			for _, r := range cur {
				x, ok := r.v.(IntV)
				if !ok {
					next = append(next, vs{r.st, e.havoc(r.st, c.Signature().Results().At(0).Type(), "minmax")})
					continue
				}
				y := a.(IntV)
				le, gt := e.split(r.st, geB(y.L.Sub(x.L)))
				lo, hi := x, y
				if b.Name() == "max" {
					lo, hi = y, x
				}
				if le != nil {
					next = append(next, vs{le, lo})
				}
				if gt != nil {
					next = append(next, vs{gt, hi})
				}
			}
			cur = next
		}
		return cur
	case "delete":
		switch v := s.resolve(args[0]).(type) {
		case MapV:
			m := s.heap[v.Obj].Val.(MapO)
			var out []vs
			cur := []*State{s}
			for i := range m.Keys {
				var rest []*State
				for _, st := range cur {
					for _, r := range e.equal(st, args[1], m.Keys[i], site) {
						yes, no := e.split(r.st, r.v.(BoolV))
						if yes != nil {
							nm := m
							nm.Keys = append(append([]Val{}, m.Keys[:i]...), m.Keys[i+1:]...)
							nm.Vals = append(append([]Val{}, m.Vals[:i]...), m.Vals[i+1:]...)
							yes.setObj(v.Obj, nm)
							out = append(out, vs{yes, nil})
						}
						if no != nil {
							rest = append(rest, no)
						}
					}
				}
				cur = rest
			}
			for _, st := range cur {
				out = append(out, vs{st, nil})
			}
			return out
		}
		return one(nil)
	case "clear":
		switch v := s.resolve(args[0]).(type) {
		case MapV:
			m := s.heap[v.Obj].Val.(MapO)
			s.setObj(v.Obj, MapO{Key: m.Key, Elem: m.Elem})
		case SliceV:
			if !v.Nil {
				z := &Content{ID: e.id(), Zero: true}
				var out []vs
				for _, st := range e.writeRange(s, v, v.Off, v.Len, z, K(0), 0) {
					out = append(out, vs{st, nil})
				}
				return out
			}
		}
		return one(nil)
	case "ssa:wrapnilchk":
		v := s.resolve(args[0])
		st, p := e.deref(s, v, site)
		if st == nil {
			return nil
		}
		return []vs{{st, p}}
	case "recover":
		return one(NilV{})
	}
	panic(abort{"builtin " + b.Name() + " at " + e.pos(site)})
}

func (e *Eng) doCopy(s *State, args []Val) []vs {
	dst := s.resolve(args[0]).(SliceV)
	var src *Content
	var srcOff, n2 Lin
	var srcObj ObjID
	switch v := s.resolve(args[1]).(type) {
	case SliceV:
		if !v.Nil {
			src, srcOff, srcObj = e.arrOf(s, v).C, v.Off, v.Obj
		}
		n2 = sliceLen(v)
	case StrV:
		n2 = strLen(v)
		src, srcOff = v.Cnt, v.Off
		if v.Const {
			src = e.strContent(v.S)
		}
	}
	n1 := sliceLen(dst)
	if dst.Nil || src == nil {
		return []vs{{s, IntV{}}}
	}
	var out []vs
	do := func(st *State, n Lin) {
		if nn := st.num.Norm(n); nn.IsConst() && nn.K == 0 {
			out = append(out, vs{st, IntV{}})
			return
		}
		for _, r := range e.writeRange(st, dst, dst.Off, n, src, srcOff, srcObj) {
			out = append(out, vs{r, IntV{n}})
		}
	}
	le, gt := e.split(s, geB(n1.Sub(n2)))
	if le != nil {
		do(le, n2)
	}
	if gt != nil {
		do(gt, n1)
	}
	return out
}

func (e *Eng) strContent(s string) *Content {
	c := &Content{ID: e.id()}
	if len(s) <= maxWrites {
		c.Zero = true
		for i := range []byte(s) {
			c.W = append(c.W, Write{Off: K(int64(i)), Len: K(1), Val: IntV{K(int64(s[i]))}})
		}
	}
	return c
}

func (e *Eng) doAppend(s *State, c *ssa.CallCommon, args []Val, site ssa.CallInstruction) []vs {
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	base := s.resolve(args[0]).(SliceV)
	if len(args) == 1 {
		return []vs{{s, base}}
	}
	var src *Content
	var srcOff, n Lin
	var srcObj ObjID
	switch v := s.resolve(args[1]).(type) {
	case SliceV:
		if v.Nil {
			return []vs{{s, base}}
		}
		src, srcOff, n, srcObj = e.arrOf(s, v).C, v.Off, v.Len, v.Obj
	case StrV:
		n = strLen(v)
		src, srcOff = v.Cnt, v.Off
		if v.Const {
			src = e.strContent(v.S)
		}
	default:
		panic(abort{"append at " + e.pos(site)})
	}
	var out []vs
	grow := func(st *State) {
		l := sliceLen(base).Add(n)
		if base.Nil {
			if nn := st.num.Norm(n); nn.IsConst() && nn.K == 0 {
				out = append(out, vs{st, base})
				return
			}
		}
		cp := e.freshIn(st, "cap", ip(0), ip(1<<42))
		st.num.AssumeGe(cp.Sub(l))
		r := e.newSlice(st, el, l, cp, "append@"+e.pos(site))
		a := st.heap[r.Obj].Val.(ArrV)
		ct := &Content{ID: e.id(), Zero: true}
		if !base.Nil {
			ct = e.copyInto(st, ct, K(0), base.Len, e.arrOf(st, base).C, base.Off)
		}
		ct = e.copyInto(st, ct, sliceLen(base), n, src, srcOff)
		a.C = ct
		st.setObj(r.Obj, a)
		out = append(out, vs{st, r})
	}
	if base.Nil {
		grow(s)
		return out
	}
	fit, no := e.split(s, geB(base.Cap.Sub(base.Len).Sub(n)))
	if fit != nil {
		r := base
		r.Len = base.Len.Add(n)
		r.Maybe = 0
		for _, st := range e.writeRange(fit, base, base.Off.Add(base.Len), n, src, srcOff, srcObj) {
			out = append(out, vs{st, r})
		}
	}
	if no != nil {
		grow(no)
	}
	return out
}

// copyInto adds a copy of src[srcOff, srcOff+n) at off; short constant copies become single writes.
func (e *Eng) copyInto(st *State, ct *Content, off, n Lin, src *Content, srcOff Lin) *Content {
	nn := st.num.Norm(n)
	if nn.IsConst() {
		if nn.K == 0 {
			return ct
		}
		// one element: resolve it when that is unambiguous
		if nn.K == 1 {
			for i := len(src.W) - 1; i >= 0; i-- {
				w := src.W[i]
				if w.Src == nil && w.Havoc == 0 && w.Len.IsConst() && w.Len.K == 1 && st.num.EntailsEq(w.Off.Sub(srcOff)) {
					return e.writeContent(st, ct, Write{Off: off, Len: K(1), Val: w.Val})
				}
				break
			}
		}
	}
	return e.writeContent(st, ct, Write{Off: off, Len: n, Src: src, SrcOff: srcOff})
}

var _ = token.NoPos
var _ = strings.HasPrefix
