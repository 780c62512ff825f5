package main

// The interpreter: functions, loops, instructions.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Hooks struct {
	// OnCall may replace a call of a function with a body.
	OnCall func(st *State, fn *ssa.Function, args []Val, site ssa.CallInstruction) (bool, []vs)
	// OnRet sees the outcomes of calls.
	OnRet func(st *State, fn *ssa.Function, args []Val, ret Val, site ssa.CallInstruction) []*State
	// OnInvoke models a method call on an opaque interface value.
	OnInvoke func(st *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) (bool, []vs)
	// OnFunc models a call of an opaque function value.
	OnFunc func(st *State, f FuncV, sig *types.Signature, args []Val, site ssa.CallInstruction) (bool, []vs)
	// OnWrite sees a write into an array before it happens.
	OnWrite func(st *State, ev WriteEv) []*State
	// OnStore sees a store after it happened.
	OnStore func(st *State, p PtrV, v Val)
	// OnPanic decides whether a failed run-time check counts (true: not a violation).
	OnPanic func(kind string, fn *ssa.Function, in ssa.Instruction) bool
}

type obRec struct {
	rule, fn, pos, what string
	ok                  bool
	trace               []string
	dump                string
}

type Eng struct {
	*Ctx
	prog             *ssa.Program
	repo             map[*types.Package]bool
	elemOf           map[Sym]elemRef
	elemsOf          map[int][]Sym
	replaced         map[int]replacement // contents made by bytes.Replace
	strictLoops      bool                // only tests on constants decide that a loop is bounded
	anySPS           bool                // answer the parsers of sequence parameter sets with anything
	tape             bool                // answer the bit reader from the tape
	recycle          bool                // a pool hands out what was put into it
	traceReads       bool                // keep apart the states in which a read hits different writes, within a loop's turn
	caseVec, caseMax []int               // choices of vp.Case in this run
	apart            bool                // loop states with different known elements are kept apart
	tryUnroll        int                 // turns of a loop to try before its bound is known
	rdDepth          int
	interfere        bool // other goroutines change atomic cells
	atomicCells      map[string]string
	plainCells       map[string]string
	idBounds         map[int][2]int64 // range of the elements of a content
	globOrder        []*ssa.Global
	globInit         map[*ssa.Global]Val
	infos            map[*ssa.Function]*fnInfo
	hooks            Hooks
	obs              []obRec
	depth            int
	steps            int
	K                int // states kept apart at a join point
	unroll           int
	quiet            int
	stack            []*ssa.Function
	calls            map[string]int
	maxSteps         int
	debug            bool
	noPanics         bool // ignore run-time check obligations (they belong to another property)
	rule             string
	appendSplit      bool
	unmodelled       map[string]bool
	fnsSeen          map[*ssa.Function]bool
	loops            int
	target           string // the repository function a client called last
	targetPos        string
	pend             int // obligations from here on belong to an unfinished fixpoint (-1: none)
	deadline         time.Time
}

type abort struct{ msg string }

func (e *Eng) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		// nearest instruction with a position
		b := in.Block()
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
			}
			if x == in && p.IsValid() {
				break
			}
		}
	}
	return e.posOf(p)
}

func (e *Eng) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, repoDir+"/")
	if i := strings.Index(f, "/src/"); i >= 0 && strings.HasPrefix(f, "/") {
		f = f[i+5:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Eng) record(st *State, rule, fn, pos, what string, ok bool) {
	r := obRec{rule: rule, fn: fn, pos: pos, what: what, ok: ok}
	if !ok {
		r.trace = append([]string{}, st.trace...)
		if e.debug {
			r.dump = e.dump(st)
		}
	}
	e.obs = append(e.obs, r)
}

// oblige checks a condition and returns the state in which it holds.
func (e *Eng) oblige(st *State, rule string, in ssa.Instruction, b BoolV, what string) *State {
	if e.noPanics {
		yes, _ := e.split(st, b)
		return yes
	}
	yes, no := e.split(st, b)
	fn := in.Parent()
	if no != nil && e.hooks.OnPanic != nil && e.hooks.OnPanic(rule, fn, in) {
		no = nil
	}
	if no != nil {
		if e.debug && e.quiet == 0 {
			fmt.Fprintln(os.Stderr, "BAD", rule, e.pos(in), what, fmt.Sprint(b.L.Str(e.name)), no.num.String(e.name))
		}
		e.record(no, rule, fn.String(), e.pos(in), what, false)
	} else {
		e.record(nil, rule, fn.String(), e.pos(in), what, true)
	}
	return yes
}

// require is an obligation of a scenario.
func (e *Eng) require(st *State, rule, fn, pos string, b BoolV, what string) bool {
	s := st.Clone()
	_, no := e.split(s, b)
	e.record(no, rule, fn, pos, what, no == nil)
	return no == nil
}

func (e *Eng) failAt(st *State, rule, fn, pos, what string) {
	e.record(st, rule, fn, pos, what, false)
}

// ---- per-function information

type comp struct {
	b    *ssa.BasicBlock
	loop bool
	body []comp // without the header
	set  map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	fn      *ssa.Function
	wto     []comp
	liveIn  []map[ssa.Value]bool
	liveOut []map[ssa.Value]bool
	lastUse []map[ssa.Value]int
}

func isLocal(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	n := len(fn.Blocks)
	i := &fnInfo{fn: fn, liveIn: make([]map[ssa.Value]bool, n), liveOut: make([]map[ssa.Value]bool, n), lastUse: make([]map[ssa.Value]int, n)}
	for k := range i.liveIn {
		i.liveIn[k] = map[ssa.Value]bool{}
		i.liveOut[k] = map[ssa.Value]bool{}
		i.lastUse[k] = map[ssa.Value]int{}
	}
	var ops []*ssa.Value
	for ch := true; ch; {
		ch = false
		for k := n - 1; k >= 0; k-- {
			b := fn.Blocks[k]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.liveIn[s.Index] {
					out[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if v := ph.Edges[pi]; isLocal(v) {
							out[v] = true
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for x := len(b.Instrs) - 1; x >= 0; x-- {
				ins := b.Instrs[x]
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				ops = ins.Operands(ops[:0])
				for _, o := range ops {
					if isLocal(*o) {
						in[*o] = true
						if i.lastUse[k][*o] < x {
							i.lastUse[k][*o] = x
						}
					}
				}
			}
			if len(in) != len(i.liveIn[k]) || len(out) != len(i.liveOut[k]) {
				ch = true
			}
			i.liveIn[k], i.liveOut[k] = in, out
		}
	}
	i.wto = wtoOf(fn)
	e.infos[fn] = i
	return i
}

// wtoOf is Bourdoncle's weak topological order.
func wtoOf(fn *ssa.Function) []comp {
	dfn := make([]int, len(fn.Blocks))
	var stack []*ssa.BasicBlock
	num := 0
	var visit func(b *ssa.BasicBlock, out *[]comp) int
	var component func(b *ssa.BasicBlock) comp
	const inf = 1 << 30
	visit = func(b *ssa.BasicBlock, out *[]comp) int {
		stack = append(stack, b)
		num++
		dfn[b.Index] = num
		head, loop := num, false
		for _, s := range b.Succs {
			m := dfn[s.Index]
			if m == 0 {
				m = visit(s, out)
			}
			if m <= head {
				head, loop = m, true
			}
		}
		if head == dfn[b.Index] {
			dfn[b.Index] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != b {
					dfn[el.Index] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*out = append(*out, component(b))
			} else {
				*out = append(*out, comp{b: b})
			}
		}
		return head
	}
	component = func(b *ssa.BasicBlock) comp {
		c := comp{b: b, loop: true}
		for _, s := range b.Succs {
			if dfn[s.Index] == 0 {
				visit(s, &c.body)
			}
		}
		rev(c.body)
		c.set = map[*ssa.BasicBlock]bool{}
		var add func(x comp)
		add = func(x comp) {
			c.set[x.b] = true
			for _, y := range x.body {
				add(y)
			}
		}
		add(c)
		return c
	}
	var out []comp
	visit(fn.Blocks[0], &out)
	rev(out)
	return out
}

func rev(c []comp) {
	for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
		c[i], c[j] = c[j], c[i]
	}
}

// ---- running a function

type trial struct {
	set    map[*ssa.BasicBlock]bool
	dec    map[*ssa.BasicBlock]bool
	undecB map[*ssa.BasicBlock]bool
}

// bounded reports whether some exit test that depends on the iteration was decided, one way, every
// time it was reached, between values that are known: a counter that runs to its bound.
func (t *trial) bounded(head *ssa.BasicBlock) bool {
	for b := range t.dec {
		if !t.undecB[b] && dependsOnPhi(b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond, head, t.set, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

func dependsOnPhi(v ssa.Value, head *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if p, ok := v.(*ssa.Phi); ok && p.Block() == head {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok || !set[in.Block()] {
		return false
	}
	switch v := v.(type) {
	case *ssa.BinOp:
		return dependsOnPhi(v.X, head, set, seen) || dependsOnPhi(v.Y, head, set, seen)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return true // a variable in memory
		}
		return dependsOnPhi(v.X, head, set, seen)
	case *ssa.Convert:
		return dependsOnPhi(v.X, head, set, seen)
	case *ssa.Phi:
		for _, x := range v.Edges {
			if dependsOnPhi(x, head, set, seen) {
				return true
			}
		}
	case *ssa.Extract:
		_, isNext := v.Tuple.(*ssa.Next)
		return isNext
	}
	return false
}

type act struct {
	fn     *ssa.Function
	info   *fnInfo
	in     map[*ssa.BasicBlock][]*State
	rets   *[]vs
	trials []*trial
	coarse map[*ssa.BasicBlock]bool // loops of many classes
}

func (e *Eng) call(st *State, fn *ssa.Function, args []Val, bind []Val, site ssa.Instruction) []vs {
	if e.depth > 60 {
		panic(abort{"call depth: " + fn.String()})
	}
	for _, f := range e.stack {
		if f == fn {
			panic(abort{"recursion: " + fn.String()})
		}
	}
	if len(fn.Blocks) == 0 {
		panic(abort{"no body: " + fn.String()})
	}
	e.depth++
	e.stack = append(e.stack, fn)
	defer func() { e.depth--; e.stack = e.stack[:len(e.stack)-1] }()
	if fn.Pkg != nil && e.repo[fn.Pkg.Pkg] || fn.Origin() != nil && fn.Origin().Pkg != nil && e.repo[fn.Origin().Pkg.Pkg] {
		e.fnsSeen[fn] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, site: site}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	base := len(st.frames)
	st.frames = append(st.frames[:base:base], fr)
	rets := []vs{}
	a := &act{fn: fn, info: e.info(fn), in: map[*ssa.BasicBlock][]*State{}, rets: &rets, coarse: map[*ssa.BasicBlock]bool{}}
	a.in[fn.Blocks[0]] = []*State{st}
	e.runWTO(a, a.info.wto)
	out := e.merge(rets, e.K)
	for _, r := range out {
		r.st.frames = r.st.frames[:base:base]
		if base > 0 {
			r.st.frames = append([]*Frame{}, r.st.frames...)
			r.st.frames[base-1] = r.st.frames[base-1].clone()
		}
	}
	return out
}

func (e *Eng) runWTO(a *act, cs []comp) {
	for _, c := range cs {
		if c.loop {
			e.runLoop(a, c)
			continue
		}
		states := a.in[c.b]
		delete(a.in, c.b)
		if len(states) > e.K {
			states = e.mergeS(states, e.K)
		}
		for _, s := range states {
			e.runBlock(a, c.b, s)
		}
	}
}

func (e *Eng) mergeS(in []*State, k int) []*State {
	l := make([]vs, len(in))
	for i, s := range in {
		l[i].st = s
	}
	l = e.merge(l, k)
	out := make([]*State, len(l))
	for i, s := range l {
		out[i] = s.st
	}
	return out
}

// merge joins states of equal shape when there are more than k.
func (e *Eng) merge(in []vs, k int) []vs {
	if len(in) <= k {
		return in
	}
	for pass := 0; pass < 3; pass++ {
		if pass == 1 && len(in) <= k || pass == 2 && len(in) <= 4*k {
			break
		}
		idx := map[string]int{}
		var out []vs
		for _, s := range in {
			sh := e.shapeOf(s.st, s.v, pass == 2, pass == 0)
			if i, ok := idx[sh]; ok {
				r, x, changed, fail := e.join(out[i].st, s.st, joinOpts{xa: out[i].v, xb: s.v})
				if fail == "" {
					if changed || true {
						out[i] = vs{r, x}
					}
					continue
				}
				if e.debug {
					fmt.Fprintln(os.Stderr, "join failed:", fail)
				}
				out = append(out, s)
				continue
			}
			idx[sh] = len(out)
			out = append(out, s)
		}
		in = out
	}
	return in
}

type mark struct {
	obs int
}

func (e *Eng) mark() mark      { return mark{len(e.obs)} }
func (e *Eng) rollback(m mark) { e.obs = e.obs[:m.obs] }

func cloneAll(in []*State) []*State {
	out := make([]*State, len(in))
	for i, s := range in {
		out[i] = s.Clone()
	}
	return out
}

// once runs the header and the body of a loop on some states; it returns the states back at the
// header and leaves exits in sub.in.
func (e *Eng) once(a *act, c comp, states []*State, t *trial) (back []*State, sub *act, rets []vs) {
	sub = &act{fn: a.fn, info: a.info, in: map[*ssa.BasicBlock][]*State{}, rets: &rets, trials: a.trials, coarse: a.coarse}
	if t != nil {
		sub.trials = append(append([]*trial{}, a.trials...), t)
	}
	for _, s := range states {
		delete(s.ghosts, "!rd")
		e.runBlock(sub, c.b, s)
	}
	e.runWTO(sub, c.body)
	back = sub.in[c.b]
	for _, s := range back {
		delete(s.ghosts, "!rd")
	}
	delete(sub.in, c.b)
	return
}

func (e *Eng) commit(a, sub *act, rets []vs) {
	var bs []*ssa.BasicBlock
	for b := range sub.in {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		a.in[b] = append(a.in[b], sub.in[b]...)
	}
	*a.rets = append(*a.rets, rets...)
}

func (e *Eng) runLoop(a *act, c comp) {
	entry := a.in[c.b]
	delete(a.in, c.b)
	if len(entry) == 0 {
		return
	}
	// unrolling
	m := e.mark()
	own := e.pend < 0
	if own {
		e.pend = m.obs
	}
	settled := func() {
		if own {
			e.pend = -1
		}
	}
	cur := cloneAll(entry)
	type part struct {
		sub  *act
		rets []vs
	}
	var parts []part
	done := false
	for it := 0; it < e.unroll; it++ {
		t := &trial{set: c.set, dec: map[*ssa.BasicBlock]bool{}, undecB: map[*ssa.BasicBlock]bool{}}
		back, sub, rets := e.once(a, c, cur, t)
		parts = append(parts, part{sub, rets})
		if len(back) == 0 {
			done = true
			break
		}
		if it >= e.tryUnroll && !t.bounded(c.b) || len(back) > 2*e.K {
			break
		}
		cur = back
		if len(cur) > e.K {
			cur = e.mergeS(cur, e.K)
		}
	}
	if done {
		settled()
		for _, p := range parts {
			e.commit(a, p.sub, p.rets)
		}
		return
	}
	e.rollback(m)
	e.loops++
	// fixpoint
	inv := entryFacts(entry)
	var H []*State
	var keys []string
	age := map[string]int{} // in how many turns a class has changed
	coarse := a.coarse[c.b]
	addTo := func(H []*State, keys []string, s *State, widen bool) ([]*State, []string, bool) {
		if coarse {
			e.liftNils(s)
		}
		sh := e.shape(s, nil, coarse)
		same := 0
		for i := range H {
			if keys[i] == sh {
				same++
			}
		}
		if e.apart && same > 0 {
			for i := range H {
				if keys[i] != sh {
					continue
				}
				r, _, changed, fail := e.join(H[i], s, joinOpts{widen: widen, tmpl: true, apart: true, inv: inv})
				if fail != "" {
					continue
				}
				if changed {
					H[i] = r
				}
				return H, keys, changed
			}
			if same < 4 {
				return append(H, e.prune(s, nil)), append(keys, sh), true
			}
		}
		for i := range H {
			if keys[i] != sh {
				continue
			}
			r, _, changed, fail := e.join(H[i], s, joinOpts{widen: widen, tmpl: true, inv: inv})
			if fail != "" {
				continue
			}
			if changed {
				H[i] = r
				return H, keys, true
			}
			return H, keys, false
		}
		return append(H, e.prune(s, nil)), append(keys, sh), true
	}
	build := func(in []*State) {
		H, keys = nil, nil
		for _, s := range in {
			H, keys, _ = addTo(H, keys, s, false)
		}
	}
	build(entry)
	widened := false
	for it := 0; ; it++ {
		if it > 60 {
			panic(abort{"no fixpoint: " + a.fn.String() + " at " + e.posOf(c.b.Instrs[0].Pos())})
		}
		m := e.mark()
		e.quiet++
		back, _, _ := e.once(a, c, cloneAll(H), nil)
		e.quiet--
		e.rollback(m)
		ch := false
		grown := map[string]bool{}
		for _, b := range back {
			var x bool
			if coarse {
				e.liftNils(b)
			}
			sh := e.shape(b, nil, coarse)
			w := age[sh] >= 3 || it >= 9
			H, keys, x = addTo(H, keys, b, w)
			ch = ch || x
			widened = widened || (w && x)
			grown[sh] = grown[sh] || x
		}
		for sh, x := range grown {
			if x {
				age[sh]++
			}
		}
		if e.debug {
			fmt.Fprintf(os.Stderr, "%sloop %s %s it=%d classes=%d back=%d changed=%v steps=%d lp=%d\n", strings.Repeat(" ", e.depth), a.fn.Name(), e.pos(c.b.Instrs[0]), it, len(H), len(back), ch, e.steps, lpCount)
			for _, k := range keys {
				fmt.Fprintln(os.Stderr, "   shape", k)
			}
		}
		if !ch {
			break
		}
		if len(H) > 16 && !coarse {
			coarse = true
			a.coarse[c.b] = true
			old := H
			H, keys = nil, nil
			for _, s := range old {
				H, keys, _ = addTo(H, keys, s, false)
			}
		}
		if len(H) > 48 {
			if e.debug {
				for _, k := range keys {
					fmt.Fprintln(os.Stderr, "SHAPE", k)
				}
			}
			panic(abort{"too many states: " + a.fn.String()})
		}
	}
	if widened {
		for r := 0; r < 2; r++ {
			m := e.mark()
			e.quiet++
			back, _, _ := e.once(a, c, cloneAll(H), nil)
			e.quiet--
			e.rollback(m)
			all := append(append([]*State{}, entry...), back...)
			build(all)
		}
	}
	settled()
	back, sub, rets := e.once(a, c, cloneAll(H), nil)
	_ = back
	e.commit(a, sub, rets)
}

func (e *Eng) runBlock(a *act, b *ssa.BasicBlock, st *State) {
	cur := []*State{st}
	for i, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			for _, s := range cur {
				v := e.val(s, in.Cond).(BoolV)
				neq := len(s.num.eqs)
				yes, no := e.split(s, v)
				if yes != nil && len(yes.num.eqs) != neq && !e.congruent(yes.num) {
					yes = nil
				}
				if no != nil && len(no.num.eqs) != neq && !e.congruent(no.num) {
					no = nil
				}
				for _, t := range a.trials {
					if !t.set[b] {
						continue
					}
					x0, x1 := !t.set[b.Succs[0]], !t.set[b.Succs[1]]
					if x0 == x1 {
						continue
					}
					exits := yes != nil
					if x1 {
						exits = no != nil
					}
					if was, ok := t.dec[b]; yes != nil && no != nil || ok && was != exits || e.strictLoops && v.K != bConst && !s.num.Norm(v.L).IsConst() {
						t.undecB[b] = true
					}
					t.dec[b] = exits
				}
				if yes != nil && no != nil {
					p := e.pos(in)
					yes.trace = appendTrace(yes.trace, p+" true")
					no.trace = appendTrace(no.trace, p+" false")
				}
				if yes != nil {
					e.edge(a, b, b.Succs[0], yes, 0)
				}
				if no != nil {
					e.edge(a, b, b.Succs[1], no, 1)
				}
			}
			return
		case *ssa.Jump:
			for _, s := range cur {
				e.edge(a, b, b.Succs[0], s, 0)
			}
			return
		case *ssa.Return:
			for _, s := range cur {
				var v Val
				switch len(in.Results) {
				case 0:
				case 1:
					v = e.val(s, in.Results[0])
				default:
					t := TupleV{}
					for _, r := range in.Results {
						t.E = append(t.E, e.val(s, r))
					}
					v = t
				}
				s.top().env = map[ssa.Value]Val{}
				*a.rets = append(*a.rets, vs{s, v})
			}
			return
		case *ssa.Panic:
			for _, s := range cur {
				e.oblige(s, "panic", in, boolC(false), "reachable panic")
			}
			return
		}
		var next []*State
		for _, s := range cur {
			e.steps++
			if e.steps > e.maxSteps {
				panic(abort{"step budget exhausted in " + a.fn.String()})
			}
			if e.steps&63 == 0 && !e.deadline.IsZero() && time.Now().After(e.deadline) {
				panic(abort{"time limit in " + a.fn.String()})
			}
			for _, x := range e.step(a, s, b, i, in) {
				if !x.num.bot {
					next = append(next, x)
				}
			}
		}
		cur = next
		if len(cur) == 0 {
			return
		}
		if len(cur) > 64 {
			cur = e.mergeS(cur, e.K)
		}
	}
}

func appendTrace(t []string, s string) []string {
	if len(t) > 60 {
		t = t[len(t)-60:]
	}
	return append(t[:len(t):len(t)], s)
}

// edge evaluates phis and prunes the environment.
func (e *Eng) edge(a *act, from, to *ssa.BasicBlock, s *State, si int) {
	pi := -1
	n := 0
	for i, p := range to.Preds {
		if p == from {
			// the n-th edge from this block
			cnt := 0
			for k := 0; k < si; k++ {
				if from.Succs[k] == to {
					cnt++
				}
			}
			if n == cnt {
				pi = i
			}
			n++
		}
	}
	f := s.top()
	env := map[ssa.Value]Val{}
	live := a.info.liveIn[to.Index]
	for k, v := range f.env {
		if live[k] {
			env[k] = v
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		env[ph] = e.val(s, ph.Edges[pi])
	}
	f.env = env
	a.in[to] = append(a.in[to], s)
}

// val evaluates an operand.
func (e *Eng) val(s *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v.Value, v.Type())
	case *ssa.Global:
		return PtrV{Obj: e.global(s, v)}
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return FuncV{}
	}
	r, ok := s.top().env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), s.top().fn))
	}
	return s.resolve(r)
}

func (e *Eng) global(s *State, g *ssa.Global) ObjID {
	id, ok := e.globs[g]
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if !ok {
		id = e.nobj
		e.nobj++
		e.globs[g] = id
		e.globOrder = append(e.globOrder, g)
		var v Val
		if g.Pkg != nil && e.repo[g.Pkg.Pkg] {
			v = e.zero(t)
		} else if types.IsInterface(t) {
			v = IfaceV{ID: e.id()}
		} else if _, isS := t.Underlying().(*types.Struct); isS {
			v = e.havoc(s, t, g.Name())
		} else {
			v = e.havoc(s, t, g.Name())
		}
		e.globInit[g] = v
	}
	if s.heap[id] == nil {
		s.heap[id] = &Obj{Val: e.globInit[g], T: t, Tag: g.String()}
	}
	return id
}

func (e *Eng) set(s *State, v ssa.Value, x Val) *State {
	s.top().env[v] = x
	return s
}

func (e *Eng) setAll(rs []vs, v ssa.Value) []*State {
	out := make([]*State, 0, len(rs))
	for _, r := range rs {
		r.st.top().env[v] = r.v
		out = append(out, r.st)
	}
	return out
}

// deref makes a pointer usable, obliging it to be non-nil.
func (e *Eng) deref(s *State, v Val, in ssa.Instruction) (*State, PtrV) {
	v = s.resolve(v)
	switch p := v.(type) {
	case PtrV:
		e.record2("nil-deref", in)
		return s, p
	case NilV:
		e.oblige(s, "nil-deref", in, boolC(false), "nil pointer dereference")
		return nil, PtrV{}
	case LazyV:
		n, non := e.splitNil(s, p)
		e.oblige(n, "nil-deref", in, boolC(false), "nil pointer dereference ("+e.lazyT[p.ID].Tag+")")
		return non, non.resolve(v).(PtrV)
	}
	panic(fmt.Sprintf("deref %T at %s", v, e.pos(in)))
}

func (e *Eng) record2(rule string, in ssa.Instruction) {
	if !e.noPanics {
		e.obs = append(e.obs, obRec{rule: rule, fn: in.Parent().String(), pos: e.pos(in), ok: true})
	}
}

func (e *Eng) step(a *act, s *State, b *ssa.BasicBlock, idx int, in ssa.Instruction) []*State {
	one := func(s *State) []*State { return []*State{s} }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		o := e.newObj(s, e.zero(t), t, in.Comment)
		s.heap[o].Fresh = true
		return one(e.set(s, in, PtrV{Obj: o}))
	case *ssa.BinOp:
		return e.setAll(e.binop(s, in), in)
	case *ssa.UnOp:
		x := e.val(s, in.X)
		switch in.Op {
		case token.MUL:
			s, p := e.deref(s, x, in)
			if s == nil {
				return nil
			}
			e.plain(s, p, in)
			return e.setAll(e.load(s, p), in)
		case token.SUB:
			if i, ok := x.(IntV); ok {
				var l Lin
				if guard(func() { l = i.L.Neg() }) {
					return e.setAll(e.wrap(s, l, in.Type(), "neg"), in)
				}
				return one(e.set(s, in, IntV{e.freshT(s, "neg|"+i.L.Key(), "neg", in.Type())}))
			}
			return one(e.set(s, in, FloatV{"-(" + x.(FloatV).Key + ")"}))
		case token.XOR:
			w, signed := typeBits(in.Type())
			i := x.(IntV)
			if signed {
				return one(e.set(s, in, IntV{i.L.Neg().AddK(-1)}))
			}
			if w < 64 {
				return one(e.set(s, in, IntV{K(pow2(w) - 1).Sub(i.L)}))
			}
			bv := *e.bitsOf(s, i.L)
			for k := range bv {
				bv[k] ^= 1
			}
			return one(e.set(s, in, IntV{e.fromBits(s, &bv, 64, false)}))
		case token.NOT:
			return one(e.set(s, in, x.(BoolV).Not()))
		}
		panic(abort{"unsupported operation at " + e.pos(in)})
	case *ssa.ChangeType:
		return one(e.set(s, in, e.val(s, in.X)))
	case *ssa.ChangeInterface:
		return one(e.set(s, in, e.val(s, in.X)))
	case *ssa.Convert:
		return e.setAll(e.convert(s, in), in)
	case *ssa.MultiConvert:
		panic(abort{"unsupported conversion at " + e.pos(in)})
	case *ssa.MakeInterface:
		return one(e.set(s, in, IfaceV{T: in.X.Type(), V: e.val(s, in.X)}))
	case *ssa.MakeClosure:
		f := FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, x := range in.Bindings {
			f.Bind = append(f.Bind, e.val(s, x))
		}
		return one(e.set(s, in, f))
	case *ssa.MakeMap:
		t := in.Type().Underlying().(*types.Map)
		o := e.newObj(s, MapO{Key: t.Key(), Elem: t.Elem()}, in.Type(), "map")
		s.heap[o].Fresh = true
		return one(e.set(s, in, MapV{o}))
	case *ssa.MakeSlice:
		n, c := e.val(s, in.Len).(IntV).L, e.val(s, in.Cap).(IntV).L
		s = e.oblige(s, "makeslice", in, geB(n), "make with a negative length")
		if s == nil {
			return nil
		}
		if !n.Eq(c) {
			s = e.oblige(s, "makeslice", in, geB(c.Sub(n)), "make with capacity below length")
			if s == nil {
				return nil
			}
		}
		if !s.num.AssumeGe(K(maxLen).Sub(c)) {
			e.oblige(s, "makeslice", in, boolC(false), "make of an absurd size")
			return nil
		}
		el := in.Type().Underlying().(*types.Slice).Elem()
		return one(e.set(s, in, e.newSlice(s, el, n, c, "make@"+e.pos(in))))
	case *ssa.FieldAddr:
		s, p := e.deref(s, e.val(s, in.X), in)
		if s == nil {
			return nil
		}
		return one(e.set(s, in, PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], PathElem{Field: in.Field})}))
	case *ssa.Field:
		return one(e.set(s, in, e.val(s, in.X).(StructV).F[in.Field]))
	case *ssa.IndexAddr:
		i := e.val(s, in.Index).(IntV).L
		x := e.val(s, in.X)
		if sl, ok := x.(SliceV); ok {
			s = e.oblige(s, "index", in, geB(i), "index may be negative")
			if s == nil {
				return nil
			}
			s = e.oblige(s, "index", in, geB(sliceLen(sl).Sub(i).AddK(-1)), "index may reach the length")
			if s == nil || sl.Nil {
				return nil
			}
			return one(e.set(s, in, PtrV{sl.Obj, append(sl.Path[:len(sl.Path):len(sl.Path)], PathElem{Field: -1, Idx: sl.Off.Add(i)})}))
		}
		s, p := e.deref(s, x, in)
		if s == nil {
			return nil
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		s = e.oblige(s, "index", in, geB(i), "index may be negative")
		if s == nil {
			return nil
		}
		s = e.oblige(s, "index", in, geB(K(n-1).Sub(i)), "index may reach the length")
		if s == nil {
			return nil
		}
		return one(e.set(s, in, PtrV{p.Obj, append(p.Path[:len(p.Path):len(p.Path)], PathElem{Field: -1, Idx: i})}))
	case *ssa.Index:
		i := e.val(s, in.Index).(IntV).L
		switch x := e.val(s, in.X).(type) {
		case ArrV:
			s = e.oblige(s, "index", in, geB(i), "index may be negative")
			if s == nil {
				return nil
			}
			s = e.oblige(s, "index", in, geB(x.Len.Sub(i).AddK(-1)), "index may reach the length")
			if s == nil {
				return nil
			}
			return e.setAll(e.readContent(s, x.C, x.Elem, i), in)
		case StrV:
			s = e.oblige(s, "index", in, geB(i), "index may be negative")
			if s == nil {
				return nil
			}
			s = e.oblige(s, "index", in, geB(strLen(x).Sub(i).AddK(-1)), "index may reach the length")
			if s == nil {
				return nil
			}
			return e.setAll(e.strIndex(s, x, i), in)
		}
		panic(abort{"index at " + e.pos(in)})
	case *ssa.Slice:
		return e.sliceOp(s, in)
	case *ssa.Store:
		v := e.val(s, in.Val)
		s, p := e.deref(s, e.val(s, in.Addr), in)
		if s == nil {
			return nil
		}
		e.plain(s, p, in)
		return e.store(s, p, v)
	case *ssa.Extract:
		return one(e.set(s, in, e.val(s, in.Tuple).(TupleV).E[in.Index]))
	case *ssa.TypeAssert:
		return e.typeAssert(s, in)
	case *ssa.Lookup:
		return e.lookup(s, in)
	case *ssa.MapUpdate:
		return e.mapUpdate(s, in)
	case *ssa.Range:
		v := e.val(s, in.X)
		if m, ok := s.resolve(v).(MapV); ok {
			if mo := s.heap[m.Obj].Val.(MapO); mo.Rest == 0 && len(mo.Keys) <= 4 {
				must := StrV{Const: true}
				for _, k := range mo.Keys {
					must.S += keyRepr(s, k)
				}
				v = TupleV{[]Val{m, must, StrV{Const: true}}}
			}
		}
		return one(e.set(s, in, v))
	case *ssa.Next:
		return e.next(s, in)
	case *ssa.Call:
		e.pruneAt(a, s, b, idx)
		return e.setAll(e.doCall(s, in.Common(), in), in)
	case *ssa.Defer:
		var args []Val
		for _, x := range in.Call.Args {
			args = append(args, e.val(s, x))
		}
		d := deferred{args: args, inst: in}
		if in.Call.IsInvoke() {
			d.fn = e.val(s, in.Call.Value)
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			d.fn = e.val(s, in.Call.Value)
		}
		f := s.top()
		f.defers = append(f.defers[:len(f.defers):len(f.defers)], d)
		return one(s)
	case *ssa.RunDefers:
		cur := one(s)
		n := len(s.top().defers)
		for k := n - 1; k >= 0; k-- {
			var next []*State
			for _, s := range cur {
				d := s.top().defers[k]
				s.top().defers = s.top().defers[:k:k]
				for _, r := range e.callVal(s, &d.inst.Call, d.fn, d.args, d.inst) {
					next = append(next, r.st)
				}
			}
			cur = next
		}
		return cur
	}
	panic(abort{fmt.Sprintf("unsupported instruction %T at %s", in, e.pos(in))})
}

func (e *Eng) pruneAt(a *act, s *State, b *ssa.BasicBlock, idx int) {
	f := s.top()
	out, last := a.info.liveOut[b.Index], a.info.lastUse[b.Index]
	for k := range f.env {
		if !out[k] && last[k] < idx {
			delete(f.env, k)
		}
	}
}

// ---- operators

func (e *Eng) binop(s *State, in *ssa.BinOp) []vs {
	x, y := e.val(s, in.X), e.val(s, in.Y)
	one := func(v Val) []vs { return []vs{{s, v}} }
	switch in.Op {
	case token.EQL, token.NEQ:
		out := e.equal(s, x, y, in)
		if in.Op == token.NEQ {
			for i := range out {
				out[i].v = out[i].v.(BoolV).Not()
			}
		}
		return out
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch xv := x.(type) {
		case IntV:
			a, b := xv.L, y.(IntV).L
			if in.Op == token.GTR || in.Op == token.LEQ {
				a, b = b, a
			}
			// LSS, GTR: b-a >= 1; GEQ: a-b>=0; LEQ (swapped): a-b >= 0
			var l Lin
			ok := guard(func() {
				if in.Op == token.LSS || in.Op == token.GTR {
					l = b.Sub(a).AddK(-1)
				} else {
					l = a.Sub(b)
				}
			})
			if !ok {
				return one(e.unknownBool("cmp"))
			}
			return one(geB(l))
		case FloatV:
			return one(e.keyedBool(fmt.Sprintf("f%v|%s|%s", in.Op, xv.Key, y.(FloatV).Key)))
		}
		return one(e.unknownBool("cmp"))
	}
	switch xv := x.(type) {
	case IntV:
		yl := y.(IntV).L
		switch in.Op {
		case token.ADD, token.SUB:
			var l Lin
			ok := guard(func() {
				if in.Op == token.ADD {
					l = xv.L.Add(yl)
				} else {
					l = xv.L.Sub(yl)
				}
			})
			if !ok {
				return one(IntV{e.freshT(s, fmt.Sprintf("%v|%s|%s", in.Op, xv.L.Key(), yl.Key()), "ov", in.Type())})
			}
			return e.wrap(s, l, in.Type(), in.Name())
		case token.MUL:
			return e.mulInt(s, xv.L, yl, in.Type())
		case token.QUO, token.REM:
			s = e.oblige(s, "div-zero", in, eqB(yl).Not(), "division by zero")
			if s == nil {
				return nil
			}
			return e.divInt(s, xv.L, yl, in.Type(), in.Op == token.REM)
		case token.SHL, token.SHR:
			if _, sg := typeBits(in.Y.Type()); sg {
				s = e.oblige(s, "shift", in, geB(yl), "negative shift count")
				if s == nil {
					return nil
				}
			}
			return e.shift(s, xv.L, yl, in.Type(), in.Op == token.SHR)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return e.bitOp(s, in.Op, xv.L, yl, in.Type())
		}
	case FloatV:
		return one(FloatV{fmt.Sprintf("(%s%v%s)", xv.Key, in.Op, y.(FloatV).Key)})
	case StrV:
		yv := y.(StrV)
		if xv.Const && yv.Const {
			return one(StrV{Const: true, S: xv.S + yv.S})
		}
		return one(StrV{ID: e.sym("concat"), Len: strLen(xv).Add(strLen(yv)), Cnt: &Content{ID: e.id()}})
	case BoolV:
		// non-short-circuit operators do not exist on booleans
	}
	return one(e.havoc(s, in.Type(), "op"))
}

func (e *Eng) equal(s *State, x, y Val, in ssa.Instruction) []vs {
	one := func(v Val) []vs { return []vs{{s, v}} }
	if lz, ok := x.(LazyV); ok {
		x, y = y, lz
	}
	if lz, ok := y.(LazyV); ok {
		if _, isNil := x.(NilV); isNil {
			n, non := e.splitNil(s, lz)
			return []vs{{n, boolC(true)}, {non, boolC(false)}}
		}
		if l2, ok := x.(LazyV); ok && l2.ID == lz.ID {
			return one(boolC(true))
		}
		return one(e.unknownBool("eq"))
	}
	switch a := x.(type) {
	case IntV:
		return one(eqB(a.L.Sub(y.(IntV).L)))
	case BoolV:
		b := y.(BoolV)
		if a.K == bConst {
			a, b = b, a
		}
		if b.K == bConst {
			if b.B {
				return one(a)
			}
			return one(a.Not())
		}
		la, ok1 := boolLin(a)
		lb, ok2 := boolLin(b)
		if ok1 && ok2 {
			return one(eqB(la.Sub(lb)))
		}
		var out []vs
		yes, no := e.split(s, a)
		if yes != nil {
			out = append(out, vs{yes, b})
		}
		if no != nil {
			out = append(out, vs{no, b.Not()})
		}
		return out
	case StrV:
		return e.strEqual(s, a, y.(StrV))
	case NilV:
		switch b := y.(type) {
		case NilV:
			return one(boolC(true))
		case SliceV:
			return one(nilSlice(b))
		}
		return one(boolC(false))
	case SliceV:
		if b, ok := y.(SliceV); ok && b.Nil {
			return one(nilSlice(a))
		}
		if _, ok := y.(NilV); ok {
			return one(nilSlice(a))
		}
	case PtrV:
		if b, ok := y.(PtrV); ok {
			if a.Obj != b.Obj || len(a.Path) != len(b.Path) {
				return one(boolC(false))
			}
			for i := range a.Path {
				if a.Path[i].Field != b.Path[i].Field {
					return one(boolC(false))
				}
				if a.Path[i].Field < 0 {
					return one(eqB(a.Path[i].Idx.Sub(b.Path[i].Idx)))
				}
			}
			return one(boolC(true))
		}
		return one(boolC(false))
	case IfaceV:
		switch b := y.(type) {
		case NilV:
			return one(boolC(false))
		case IfaceV:
			if a.T == nil && b.T == nil {
				if a.ID == b.ID {
					return one(boolC(true))
				}
				return one(e.keyedBool(fmt.Sprintf("ieq|%d|%d", min(a.ID, b.ID), max(a.ID, b.ID))))
			}
			if a.T != nil && b.T != nil {
				if !types.Identical(a.T, b.T) {
					return one(boolC(false))
				}
				return e.equal(s, a.V, b.V, in)
			}
			return one(e.unknownBool("ieq"))
		}
	case FuncV, MapV:
		if _, ok := y.(NilV); ok {
			return one(boolC(false))
		}
	case FloatV:
		return one(e.keyedBool(fmt.Sprintf("feq|%s|%s", a.Key, y.(FloatV).Key)))
	case StructV:
		b := y.(StructV)
		cur := []vs{{s, boolC(true)}}
		for i := range a.F {
			var next []vs
			for _, c := range cur {
				if !c.v.(BoolV).B {
					next = append(next, c)
					continue
				}
				for _, r := range e.equal(c.st, a.F[i], b.F[i], in) {
					yes, no := e.split(r.st, r.v.(BoolV))
					if yes != nil {
						next = append(next, vs{yes, boolC(true)})
					}
					if no != nil {
						next = append(next, vs{no, boolC(false)})
					}
				}
			}
			cur = next
		}
		return cur
	}
	return one(e.unknownBool("eq"))
}

func nilSlice(a SliceV) BoolV {
	if a.Nil {
		return boolC(true)
	}
	if a.Maybe != 0 {
		return BoolV{K: bNe, L: S(a.Maybe)}
	}
	return boolC(false)
}

func (e *Eng) strEqual(s *State, a, b StrV) []vs {
	one := func(v Val) []vs { return []vs{{s, v}} }
	if a.Const && b.Const {
		return one(boolC(a.S == b.S))
	}
	if !a.Const && !b.Const {
		if a.ID == b.ID {
			return one(boolC(true))
		}
		return one(e.unknownBool("streq"))
	}
	if a.Const {
		a, b = b, a
	}
	k := s.strs[a.ID]
	if k.Is {
		return one(boolC(k.Eq == b.S))
	}
	for _, n := range k.Ne {
		if n == b.S {
			return one(boolC(false))
		}
	}
	if s.num.EntailsNe(a.Len.AddK(-int64(len(b.S)))) {
		return one(boolC(false))
	}
	no := s.Clone()
	no.strs[a.ID] = StrK{Ne: append(k.Ne[:len(k.Ne):len(k.Ne)], b.S)}
	out := []vs{{no, boolC(false)}}
	s.strs[a.ID] = StrK{Is: true, Eq: b.S}
	if s.num.AssumeEq(a.Len.AddK(-int64(len(b.S)))) {
		out = append(out, vs{s, boolC(true)})
	}
	return out
}

func (e *Eng) strIndex(s *State, x StrV, i Lin) []vs {
	if x.Const {
		if n := s.num.Norm(i); n.IsConst() && n.K >= 0 && n.K < int64(len(x.S)) {
			return []vs{{s, IntV{K(int64(x.S[n.K]))}}}
		}
		return []vs{{s, IntV{e.freshIn(s, "ch", ip(0), ip(255))}}}
	}
	return e.readContent(s, x.Cnt, types.Typ[types.Uint8], x.Off.Add(i))
}

func (e *Eng) convert(s *State, in *ssa.Convert) []vs {
	x := e.val(s, in.X)
	one := func(v Val) []vs { return []vs{{s, v}} }
	_, _, toInt := intInfo(in.Type())
	switch v := x.(type) {
	case IntV:
		if toInt {
			return e.convInt(s, v.L, in.X.Type(), in.Type())
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return one(FloatV{"f(" + s.num.Norm(v.L).Key() + ")"})
		}
	case FloatV:
		if toInt {
			return one(IntV{e.freshT(s, "fi|"+v.Key+"|"+in.Type().String(), "ftoi", in.Type())})
		}
		return one(v)
	case StrV:
		if sl, ok := in.Type().Underlying().(*types.Slice); ok && isByteElem(sl.Elem()) {
			n := strLen(v)
			r := e.newSlice(s, sl.Elem(), n, n, "bytes(string)")
			c := v.Cnt
			if v.Const {
				c = &Content{Zero: true, ID: e.id()}
				if len(v.S) <= maxWrites {
					for i := range []byte(v.S) {
						c.W = append(c.W, Write{Off: K(int64(i)), Len: K(1), Val: IntV{K(int64(v.S[i]))}})
					}
				} else {
					c = &Content{ID: e.id()}
				}
			}
			a := s.heap[r.Obj].Val.(ArrV)
			a.C = &Content{ID: a.C.ID, Zero: true, W: []Write{{Off: K(0), Len: n, Src: c, SrcOff: v.Off}}}
			s.setObj(r.Obj, a)
			return one(r)
		}
		return one(v)
	case SliceV:
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if v.Nil {
				return one(StrV{Const: true})
			}
			a := e.arrOf(s, v)
			return one(StrV{ID: e.sym("string"), Len: v.Len, Cnt: a.C, Off: v.Off})
		}
		return one(v)
	}
	return one(e.havoc(s, in.Type(), "conv"))
}

func (e *Eng) sliceOp(s *State, in *ssa.Slice) []*State {
	x := e.val(s, in.X)
	get := func(v ssa.Value) (Lin, bool) {
		if v == nil {
			return Lin{}, false
		}
		return e.val(s, v).(IntV).L, true
	}
	lo, hasLo := get(in.Low)
	hi, hasHi := get(in.High)
	mx, hasMax := get(in.Max)
	if str, ok := x.(StrV); ok {
		if !hasHi {
			hi = strLen(str)
		}
		if hasLo {
			s = e.oblige(s, "slice", in, geB(lo), "slice start may be negative")
		}
		if s != nil && hasHi {
			s = e.oblige(s, "slice", in, geB(strLen(str).Sub(hi)), "slice end may exceed the length")
		}
		if s != nil {
			s = e.oblige(s, "slice", in, geB(hi.Sub(lo)), "slice start may exceed the end")
		}
		if s == nil {
			return nil
		}
		if str.Const {
			nl, nh := s.num.Norm(lo), s.num.Norm(hi)
			if nl.IsConst() && nh.IsConst() {
				return []*State{e.set(s, in, StrV{Const: true, S: str.S[nl.K:nh.K]})}
			}
			return []*State{e.set(s, in, StrV{ID: e.sym("substr"), Len: hi.Sub(lo), Cnt: &Content{ID: e.id()}})}
		}
		return []*State{e.set(s, in, StrV{ID: e.sym("substr"), Len: hi.Sub(lo), Cnt: str.Cnt, Off: str.Off.Add(lo)})}
	}
	var base SliceV
	if sl, ok := x.(SliceV); ok {
		base = sl
		if sl.Nil {
			base.Len, base.Cap = K(0), K(0)
		}
	} else {
		var p PtrV
		s, p = e.deref(s, x, in)
		if s == nil {
			return nil
		}
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		base = SliceV{Obj: p.Obj, Path: p.Path, Len: K(n), Cap: K(n)}
	}
	if !hasHi {
		hi = base.Len
	}
	lim := base.Cap
	if hasMax {
		s = e.oblige(s, "slice", in, geB(base.Cap.Sub(mx)), "slice capacity may exceed the array")
		if s == nil {
			return nil
		}
		s = e.oblige(s, "slice", in, geB(mx.Sub(hi)), "slice end may exceed the capacity")
		if s == nil {
			return nil
		}
		lim = mx
	}
	if hasHi {
		s = e.oblige(s, "slice", in, geB(lim.Sub(hi)), "slice end may exceed the capacity")
		if s == nil {
			return nil
		}
	}
	if hasLo {
		s = e.oblige(s, "slice", in, geB(lo), "slice start may be negative")
		if s == nil {
			return nil
		}
		s = e.oblige(s, "slice", in, geB(hi.Sub(lo)), "slice start may exceed the end")
		if s == nil {
			return nil
		}
	} else if hasHi {
		s = e.oblige(s, "slice", in, geB(hi), "slice end may be negative")
		if s == nil {
			return nil
		}
	}
	if base.Nil {
		return []*State{e.set(s, in, base)}
	}
	r := base
	r.Off = base.Off.Add(lo)
	r.Len = hi.Sub(lo)
	r.Cap = lim.Sub(lo)
	return []*State{e.set(s, in, r)}
}

func (e *Eng) typeAssert(s *State, in *ssa.TypeAssert) []*State {
	x := s.resolve(e.val(s, in.X))
	fail := func(s *State) []*State {
		if in.CommaOk {
			return []*State{e.set(s, in, TupleV{[]Val{e.zero(in.AssertedType), boolC(false)}})}
		}
		e.oblige(s, "type-assert", in, boolC(false), "type assertion may fail")
		return nil
	}
	ok := func(s *State, v Val) []*State {
		if in.CommaOk {
			return []*State{e.set(s, in, TupleV{[]Val{v, boolC(true)}})}
		}
		e.record2("type-assert", in)
		return []*State{e.set(s, in, v)}
	}
	switch v := x.(type) {
	case NilV:
		return fail(s)
	case LazyV:
		n, non := e.splitNil(s, v)
		out := fail(n)
		return append(out, e.typeAssertOn(non, in, non.resolve(v).(IfaceV), ok, fail)...)
	case IfaceV:
		return e.typeAssertOn(s, in, v, ok, fail)
	}
	panic(abort{"type assertion at " + e.pos(in)})
}

func (e *Eng) typeAssertOn(s *State, in *ssa.TypeAssert, v IfaceV, ok func(*State, Val) []*State, fail func(*State) []*State) []*State {
	if types.IsInterface(in.AssertedType) {
		if v.T != nil {
			if types.Implements(v.T, in.AssertedType.Underlying().(*types.Interface)) {
				return ok(s, v)
			}
			return fail(s)
		}
		n := s.Clone()
		return append(fail(n), ok(s, v)...)
	}
	if v.T != nil {
		if types.Identical(v.T, in.AssertedType) {
			return ok(s, v.V)
		}
		return fail(s)
	}
	key := fmt.Sprintf("asrt|%d|%s", v.ID, in.AssertedType)
	var r Val
	if x, has := e.elems[key]; has {
		r = x
	} else {
		r = e.havoc(s, in.AssertedType, "assert")
		e.elems[key] = r
	}
	n := s.Clone()
	return append(fail(n), ok(s, r)...)
}

func (e *Eng) lookup(s *State, in *ssa.Lookup) []*State {
	k := e.val(s, in.Index)
	x := s.resolve(e.val(s, in.X))
	if str, ok := x.(StrV); ok {
		i := k.(IntV).L
		s = e.oblige(s, "index", in, geB(i), "index may be negative")
		if s == nil {
			return nil
		}
		s = e.oblige(s, "index", in, geB(strLen(str).Sub(i).AddK(-1)), "index may reach the length")
		if s == nil {
			return nil
		}
		return e.setAll(e.strIndex(s, str, i), in)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	res := func(s *State, v Val, ok bool) *State {
		if in.CommaOk {
			return e.set(s, in, TupleV{[]Val{v, boolC(ok)}})
		}
		return e.set(s, in, v)
	}
	switch v := x.(type) {
	case NilV:
		return []*State{res(s, e.zero(mt.Elem()), false)}
	case LazyV:
		n, non := e.splitNil(s, v)
		out := []*State{res(n, e.zero(mt.Elem()), false)}
		non.top().env[in.X] = non.resolve(v)
		return append(out, e.lookup(non, in)...)
	case MapV:
		m := s.heap[v.Obj].Val.(MapO)
		var out []*State
		cur := []*State{s}
		for i := range m.Keys {
			var rest []*State
			for _, s := range cur {
				for _, r := range e.equal(s, k, m.Keys[i], in) {
					yes, no := e.split(r.st, r.v.(BoolV))
					if yes != nil {
						out = append(out, res(yes, m.Vals[i], true))
					}
					if no != nil {
						rest = append(rest, no)
					}
				}
			}
			cur = rest
		}
		for _, s := range cur {
			if m.Rest != 0 {
				t := s.Clone()
				out = append(out, res(t, e.havoc(t, mt.Elem(), "mapval"), true))
			}
			out = append(out, res(s, e.zero(mt.Elem()), false))
		}
		return out
	}
	panic(abort{"lookup at " + e.pos(in)})
}

func (e *Eng) mapUpdate(s *State, in *ssa.MapUpdate) []*State {
	k, val := e.val(s, in.Key), e.val(s, in.Value)
	x := s.resolve(e.val(s, in.Map))
	switch v := x.(type) {
	case NilV:
		e.oblige(s, "nil-map", in, boolC(false), "assignment to a nil map")
		return nil
	case LazyV:
		n, non := e.splitNil(s, v)
		e.oblige(n, "nil-map", in, boolC(false), "assignment to a nil map")
		non.top().env[in.Map] = non.resolve(v)
		return e.mapUpdate(non, in)
	case MapV:
		m := s.heap[v.Obj].Val.(MapO)
		var out []*State
		cur := []*State{s}
		for i := range m.Keys {
			var rest []*State
			for _, s := range cur {
				for _, r := range e.equal(s, k, m.Keys[i], in) {
					yes, no := e.split(r.st, r.v.(BoolV))
					if yes != nil {
						nm := m
						nm.Vals = append([]Val{}, m.Vals...)
						nm.Vals[i] = val
						yes.setObj(v.Obj, nm)
						out = append(out, yes)
					}
					if no != nil {
						rest = append(rest, no)
					}
				}
			}
			cur = rest
		}
		for _, s := range cur {
			nm := m
			if len(m.Keys) > 40 {
				nm = MapO{Key: m.Key, Elem: m.Elem, Rest: e.id()}
			} else {
				nm.Keys = append(m.Keys[:len(m.Keys):len(m.Keys)], k)
				nm.Vals = append(m.Vals[:len(m.Vals):len(m.Vals)], val)
			}
			s.setObj(v.Obj, nm)
			out = append(out, s)
		}
		return out
	}
	panic(abort{"map update at " + e.pos(in)})
}

func (e *Eng) next(s *State, in *ssa.Next) []*State {
	tup := in.Type().(*types.Tuple)
	it := e.val(s, in.Iter)
	end := func(s *State) *State {
		return e.set(s, in, TupleV{[]Val{boolC(false), e.zeroT(tup.At(1).Type()), e.zeroT(tup.At(2).Type())}})
	}
	if in.IsString {
		n := s.Clone()
		return []*State{end(n), e.set(s, in, TupleV{[]Val{boolC(true), e.havoc(s, types.Typ[types.Int], "i"), e.havoc(s, types.Typ[types.Rune], "r")}})}
	}
	if t, ok := it.(TupleV); ok {
		m, must, seen := t.E[0].(MapV), t.E[1].(StrV), t.E[2].(StrV)
		mo := s.heap[m.Obj].Val.(MapO)
		if mo.Rest == 0 && must.Const && seen.Const {
			// every key that was there at the start and still is comes once, in any order
			var out []*State
			all := true
			for i, k := range mo.Keys {
				r := keyRepr(s, k)
				if strings.Contains(seen.S, r) {
					continue
				}
				all = all && !strings.Contains(must.S, r)
				c := s.Clone()
				c.top().env[in.Iter] = TupleV{[]Val{m, must, StrV{Const: true, S: seen.S + r}}}
				out = append(out, e.set(c, in, TupleV{[]Val{boolC(true), k, mo.Vals[i]}}))
			}
			if all {
				out = append(out, end(s.Clone()))
			}
			return out
		}
		it = m
	}
	m, ok := it.(MapV)
	if !ok {
		return []*State{end(s)}
	}
	mo := s.heap[m.Obj].Val.(MapO)
	out := []*State{end(s.Clone())}
	for i := range mo.Keys {
		c := s.Clone()
		out = append(out, e.set(c, in, TupleV{[]Val{boolC(true), mo.Keys[i], mo.Vals[i]}}))
	}
	if mo.Rest != 0 {
		c := s.Clone()
		out = append(out, e.set(c, in, TupleV{[]Val{boolC(true), e.havoc(c, mo.Key, "k"), e.havoc(c, mo.Elem, "v")}}))
	}
	return out
}

// keyRepr is a text for a key, the same for the same key only.
func keyRepr(s *State, v Val) string {
	v = s.resolve(v)
	if i, ok := v.(IntV); ok {
		v = IntV{s.num.Norm(i.L)}
	}
	return fmt.Sprintf("<%#v>", v)
}

func (e *Eng) zeroT(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return e.zero(t)
}
