package main

// Abstract values, heap and states.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// IntV: an integer of some machine type; the mathematical value is L.
type IntV struct {
	L Lin
}

type BoolKind int

const (
	bConst BoolKind = iota
	bGe             // L >= 0
	bEq             // L == 0
	bNe             // L != 0
)

type BoolV struct {
	K BoolKind
	B bool
	L Lin
}

type StrV struct {
	Const bool
	S     string
	ID    Sym // identity when not constant
	Len   Lin
	Cnt   *Content // optional content
	Off   Lin
}

type NilV struct{} // nil pointer, map, func, interface, chan

type PathElem struct {
	Field int // -1: index
	Idx   Lin
}

type PtrV struct {
	Obj  ObjID
	Path []PathElem
}

// LazyV is an unknown pointer, interface, map or func that has not been resolved yet.
type LazyV struct {
	ID int
}

type SliceV struct {
	Nil           bool
	Maybe         Sym // >0: the 0/1 symbol "is nil"
	Obj           ObjID
	Path          []PathElem
	Off, Len, Cap Lin
}

type StructV struct {
	F []Val
}

type TupleV struct {
	E []Val
}

type ArrV struct {
	Len  Lin
	Elem types.Type
	C    *Content
}

type IfaceV struct {
	T types.Type // dynamic type; nil: opaque non-nil
	V Val
	// opaque identity
	ID int
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	ID   int // opaque when Fn == nil
}

type MapV struct {
	Obj ObjID
}

type FloatV struct {
	Key string
}

type OpaqueV struct {
	ID int
}

// MapO is the content of a map object.
type MapO struct {
	Key, Elem types.Type
	Keys      []Val
	Vals      []Val
	Rest      int // >0: unknown further entries (content id); 0: none
}

// ListO is the abstract list used to model collections.LinkedList and Queue in their clients.
type ListO struct {
	Elem types.Type
	C    *Content
	Len  Lin
}

type ObjID int

type Obj struct {
	Val   Val
	T     types.Type
	Tag   string
	Site  string
	Fresh bool // allocated during the analysis (not part of the input)
}

// ---- array contents

type ContentBase int

type Write struct {
	Off, Len Lin
	Val      Val      // single element when Src == nil && !Havoc
	Src      *Content // copy of Src[SrcOff..)
	SrcOff   Lin
	Havoc    int
}

// Content is immutable.
type Content struct {
	ID   int // identity of the base
	Zero bool
	Sum  *ElemSum // what holds of the slices in the unknown part
	W    []Write
}

// ElemSum summarises slices stored in an array.
type ElemSum struct {
	NonNil bool
	Min    int64 // least length
	Max    int64 // greatest length
}

type State struct {
	num    *Num
	heap   map[ObjID]*Obj
	hOwned bool
	frames []*Frame
	ghosts map[string]Val
	lazy   map[int]Val
	strs   map[Sym]StrK
	trace  []string
	dead   bool
}

type StrK struct {
	Eq string
	Is bool
	Ne []string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	site   ssa.Instruction
}

type deferred struct {
	fn   Val
	args []Val
	inst *ssa.Defer
}

func (s *State) Clone() *State {
	t := &State{num: s.num.Clone(), trace: s.trace[:len(s.trace):len(s.trace)]}
	t.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		t.heap[k] = v
	}
	t.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		if i == len(s.frames)-1 {
			t.frames[i] = f.clone()
		} else {
			t.frames[i] = f
		}
	}
	t.ghosts = make(map[string]Val, len(s.ghosts))
	for k, v := range s.ghosts {
		t.ghosts[k] = v
	}
	t.lazy = make(map[int]Val, len(s.lazy))
	for k, v := range s.lazy {
		t.lazy[k] = v
	}
	t.strs = make(map[Sym]StrK, len(s.strs))
	for k, v := range s.strs {
		t.strs[k] = v
	}
	return t
}

func (f *Frame) clone() *Frame {
	g := &Frame{fn: f.fn, site: f.site, env: make(map[ssa.Value]Val, len(f.env))}
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = f.defers[:len(f.defers):len(f.defers)]
	return g
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// ---- context

type BitVec [64]int32 // bit ids, see ops.go

type Ctx struct {
	nsym      Sym
	names     []string
	nobj      ObjID
	nlazy     int
	lazyT     map[int]lazyInfo
	nid       int
	cons      map[string]Sym // hash-consed derived symbols
	bitIDs    map[string]int32
	bitDef    []bitD
	linBit    map[string]*BitVec
	hiOf      map[Sym]bitD
	bitActive map[Sym]bool
	impure    bool
	inv       map[Sym]Lin    // wrapped symbols: the value before wrapping
	wrapLow   map[Sym]bool   // unsigned values that wrapped from below zero
	elems     map[string]Val // hash-consed elements of unknown contents
	globs     map[*ssa.Global]ObjID
}

type lazyInfo struct {
	T   types.Type
	Tag string
}

func NewCtx() *Ctx {
	symRanges = nil
	c := &Ctx{cons: map[string]Sym{}, bitIDs: map[string]int32{}, bitDef: make([]bitD, 1), linBit: map[string]*BitVec{}, inv: map[Sym]Lin{}, hiOf: map[Sym]bitD{},
		elems: map[string]Val{}, globs: map[*ssa.Global]ObjID{}, lazyT: map[int]lazyInfo{}, nobj: 1, nlazy: 1, nid: 1}
	c.sym("none")
	return c
}

func (c *Ctx) sym(name string) Sym {
	s := c.nsym
	c.nsym++
	c.names = append(c.names, name)
	symRanges = append(symRanges, bnd{})
	return s
}

func (c *Ctx) name(s Sym) string { return fmt.Sprintf("%s#%d", c.names[s], s) }

func (c *Ctx) id() int { c.nid++; return c.nid }

func (c *Ctx) newObj(s *State, v Val, t types.Type, tag string) ObjID {
	id := c.nobj
	c.nobj++
	s.heap[id] = &Obj{Val: v, T: t, Tag: tag}
	return id
}

// fresh integer symbol with a range
func (c *Ctx) freshIn(s *State, name string, lo, hi *int64) Lin {
	return S(c.symIn(name, lo, hi))
}

// consSym returns the hash-consed symbol of a key. The range must hold by construction, in every state.
func (c *Ctx) consSym(key, name string, lo, hi *int64) (Sym, bool) {
	if y, ok := c.cons[key]; ok {
		return y, false
	}
	y := c.symIn(name, lo, hi)
	c.cons[key] = y
	return y, true
}

func (c *Ctx) symIn(name string, lo, hi *int64) Sym {
	y := c.sym(name)
	b := &symRanges[y]
	if lo != nil {
		b.lo, b.hasLo = *lo, true
	}
	if hi != nil {
		b.hi, b.hasHi = *hi, true
	}
	return y
}

func ip(v int64) *int64 { return &v }

// ---- types

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func typeRange(t types.Type) (lo, hi *int64) {
	b, signed, ok := intInfo(t)
	if !ok {
		return nil, nil
	}
	if signed {
		if b == 64 {
			return ip(-1 << 63), ip(1<<63 - 1)
		}
		return ip(-1 << (b - 1)), ip(1<<(b-1) - 1)
	}
	if b == 64 {
		return ip(0), nil
	}
	return ip(0), ip(1<<b - 1)
}

func isByteElem(t types.Type) bool {
	_, _, ok := intInfo(t)
	return ok
}

func isTypeParam(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

const maxLen = 1 << 40

// havoc makes an unknown value of a type.
func (c *Ctx) havoc(s *State, t types.Type, tag string) Val {
	if isTypeParam(t) {
		return OpaqueV{c.id()}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			lo, hi := typeRange(t)
			return IntV{L: c.freshIn(s, tag, lo, hi)}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			y := c.freshIn(s, tag, ip(0), ip(1))
			return BoolV{K: bNe, L: y}
		case u.Info()&types.IsString != 0:
			l := c.freshIn(s, "len("+tag+")", ip(0), ip(maxLen))
			return StrV{ID: c.sym(tag), Len: l, Cnt: &Content{ID: c.id()}}
		case u.Info()&types.IsFloat != 0:
			return FloatV{fmt.Sprintf("%s!%d", tag, c.id())}
		}
		return OpaqueV{c.id()}
	case *types.Struct:
		v := StructV{F: make([]Val, u.NumFields())}
		for i := range v.F {
			v.F[i] = c.havoc(s, u.Field(i).Type(), tag+"."+u.Field(i).Name())
		}
		return v
	case *types.Array:
		return ArrV{Len: K(u.Len()), Elem: u.Elem(), C: &Content{ID: c.id()}}
	case *types.Slice:
		return c.havocSlice(s, t, tag, true)
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return c.newLazy(t, tag)
	case *types.Tuple:
		v := TupleV{}
		for i := 0; i < u.Len(); i++ {
			v.E = append(v.E, c.havoc(s, u.At(i).Type(), fmt.Sprintf("%s.%d", tag, i)))
		}
		return v
	}
	return OpaqueV{c.id()}
}

func (c *Ctx) newLazy(t types.Type, tag string) LazyV {
	id := c.nlazy
	c.nlazy++
	c.lazyT[id] = lazyInfo{t, tag}
	return LazyV{id}
}

func (c *Ctx) havocSlice(s *State, t types.Type, tag string, maybeNil bool) SliceV {
	el := t.Underlying().(*types.Slice).Elem()
	l := c.freshIn(s, "len("+tag+")", ip(0), ip(maxLen))
	cp := c.freshIn(s, "cap("+tag+")", ip(0), ip(maxLen))
	s.num.AssumeGe(cp.Sub(l))
	o := c.newObj(s, ArrV{Len: cp, Elem: el, C: &Content{ID: c.id()}}, types.NewArray(el, -1), tag)
	v := SliceV{Obj: o, Len: l, Cap: cp}
	if maybeNil {
		v.Maybe = c.symIn("isnil("+tag+")", ip(0), ip(1))
		s.num.AssumeGe(K(maxLen).Sub(S(v.Maybe).Mul(maxLen)).Sub(cp))
	}
	return v
}

func (c *Ctx) zero(t types.Type) Val {
	if isTypeParam(t) {
		return OpaqueV{0}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return IntV{}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolV{}
		case u.Info()&types.IsString != 0:
			return StrV{Const: true}
		case u.Info()&types.IsFloat != 0:
			return FloatV{"0"}
		case u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return OpaqueV{0}
	case *types.Struct:
		v := StructV{F: make([]Val, u.NumFields())}
		for i := range v.F {
			v.F[i] = c.zero(u.Field(i).Type())
		}
		return v
	case *types.Array:
		return ArrV{Len: K(u.Len()), Elem: u.Elem(), C: &Content{ID: c.id(), Zero: true}}
	case *types.Slice:
		return SliceV{Nil: true}
	}
	return NilV{}
}

// ---- debugging

func (c *Ctx) vstr(s *State, v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case IntV:
		return s.num.Norm(v.L).Str(c.name)
	case BoolV:
		switch v.K {
		case bConst:
			return fmt.Sprint(v.B)
		case bGe:
			return v.L.Str(c.name) + ">=0"
		case bEq:
			return v.L.Str(c.name) + "==0"
		}
		return v.L.Str(c.name) + "!=0"
	case StrV:
		if v.Const {
			return fmt.Sprintf("%q", v.S)
		}
		return fmt.Sprintf("str#%d", v.ID)
	case NilV:
		return "nil"
	case PtrV:
		return fmt.Sprintf("&%d%s", v.Obj, pathStr(c, v.Path))
	case LazyV:
		if r, ok := s.lazy[v.ID]; ok {
			return c.vstr(s, r)
		}
		return fmt.Sprintf("lazy%d", v.ID)
	case SliceV:
		if v.Nil {
			return "nil[]"
		}
		return fmt.Sprintf("slice(%d%s off=%s len=%s cap=%s)", v.Obj, pathStr(c, v.Path), s.num.Norm(v.Off).Str(c.name), s.num.Norm(v.Len).Str(c.name), s.num.Norm(v.Cap).Str(c.name))
	case StructV:
		var p []string
		for _, f := range v.F {
			p = append(p, c.vstr(s, f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case TupleV:
		var p []string
		for _, f := range v.E {
			p = append(p, c.vstr(s, f))
		}
		return "(" + strings.Join(p, ", ") + ")"
	case ArrV:
		return fmt.Sprintf("arr(len=%s c=%d zero=%v w=%d)", v.Len.Str(c.name), v.C.ID, v.C.Zero, len(v.C.W))
	case IfaceV:
		if v.T == nil {
			return fmt.Sprintf("iface#%d", v.ID)
		}
		return fmt.Sprintf("iface(%s %s)", v.T, c.vstr(s, v.V))
	case FuncV:
		if v.Fn == nil {
			return fmt.Sprintf("func#%d", v.ID)
		}
		return v.Fn.String()
	}
	return fmt.Sprintf("%T%v", v, v)
}

func pathStr(c *Ctx, p []PathElem) string {
	var b strings.Builder
	for _, e := range p {
		if e.Field >= 0 {
			fmt.Fprintf(&b, ".%d", e.Field)
		} else {
			fmt.Fprintf(&b, "[%s]", e.Idx.Str(c.name))
		}
	}
	return b.String()
}

func (c *Ctx) dump(s *State) string {
	var b strings.Builder
	for i, f := range s.frames {
		fmt.Fprintf(&b, "frame %d %v\n", i, f.fn)
		if i == len(s.frames)-1 {
			var ks []string
			for k, v := range f.env {
				ks = append(ks, fmt.Sprintf("  %s = %s\n", k.Name(), c.vstr(s, v)))
			}
			sort.Strings(ks)
			b.WriteString(strings.Join(ks, ""))
		}
	}
	var os []int
	for o := range s.heap {
		os = append(os, int(o))
	}
	sort.Ints(os)
	for _, o := range os {
		ob := s.heap[ObjID(o)]
		fmt.Fprintf(&b, "obj %d %s = %s\n", o, ob.Tag, c.vstr(s, ob.Val))
	}
	var gk []string
	for k := range s.ghosts {
		gk = append(gk, k)
	}
	sort.Strings(gk)
	for _, k := range gk {
		fmt.Fprintf(&b, "ghost %s = %s\n", k, c.vstr(s, s.ghosts[k]))
	}
	b.WriteString(s.num.String(c.name))
	return b.String()
}
