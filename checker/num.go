package main

// Numeric part of the abstract domain: linear expressions over symbols, a store of linear
// (in)equalities, and entailment by rational linear programming (the dual simplex certificate is
// exact: all arithmetic is over rationals).

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sym int32

type Term struct {
	S Sym
	C int64
}

// Lin is sum(C*S)+K, terms sorted by symbol, no zero coefficients.
type Lin struct {
	T []Term
	K int64
}

type overflow struct{}

func addI(a, b int64) int64 {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		panic(overflow{})
	}
	return c
}

func mulI(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		if a == 1 {
			return b
		}
		if b == 1 {
			return a
		}
		panic(overflow{})
	}
	hi, lo := bits.Mul64(uint64(absI(a)), uint64(absI(b)))
	if hi != 0 || lo > math.MaxInt64 {
		panic(overflow{})
	}
	c := int64(lo)
	if (a < 0) != (b < 0) {
		c = -c
	}
	return c
}

func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func gcdI(a, b int64) int64 {
	a, b = absI(a), absI(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func K(k int64) Lin { return Lin{K: k} }
func S(s Sym) Lin   { return Lin{T: []Term{{s, 1}}} }

func (a Lin) Add(b Lin) Lin { return a.AddMul(b, 1) }
func (a Lin) Sub(b Lin) Lin { return a.AddMul(b, -1) }

func (a Lin) AddMul(b Lin, m int64) Lin {
	if m == 0 {
		return a
	}
	k := addI(a.K, mulI(b.K, m))
	if len(b.T) == 0 {
		return Lin{a.T, k}
	}
	out := make([]Term, 0, len(a.T)+len(b.T))
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		if j >= len(b.T) || (i < len(a.T) && a.T[i].S < b.T[j].S) {
			out = append(out, a.T[i])
			i++
		} else if i >= len(a.T) || b.T[j].S < a.T[i].S {
			out = append(out, Term{b.T[j].S, mulI(b.T[j].C, m)})
			j++
		} else {
			c := addI(a.T[i].C, mulI(b.T[j].C, m))
			if c != 0 {
				out = append(out, Term{a.T[i].S, c})
			}
			i++
			j++
		}
	}
	return Lin{out, k}
}

func (a Lin) AddK(k int64) Lin { return Lin{a.T, addI(a.K, k)} }

// SubK is a - k.
func (a Lin) SubK(k int64) Lin {
	if k == math.MinInt64 {
		return a.AddK(math.MaxInt64).AddK(1)
	}
	return a.AddK(-k)
}

func (a Lin) Mul(m int64) Lin {
	if m == 0 {
		return Lin{}
	}
	if m == 1 {
		return a
	}
	out := make([]Term, len(a.T))
	for i, t := range a.T {
		out[i] = Term{t.S, mulI(t.C, m)}
	}
	return Lin{out, mulI(a.K, m)}
}

func (a Lin) Neg() Lin { return a.Mul(-1) }

func (a Lin) IsConst() bool { return len(a.T) == 0 }

func (a Lin) IsSym() (Sym, bool) {
	if len(a.T) == 1 && a.T[0].C == 1 && a.K == 0 {
		return a.T[0].S, true
	}
	return 0, false
}

func (a Lin) Eq(b Lin) bool {
	if a.K != b.K || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func (a Lin) Coef(s Sym) int64 {
	for _, t := range a.T {
		if t.S == s {
			return t.C
		}
	}
	return 0
}

func (a Lin) Subst(s Sym, r Lin) Lin {
	c := a.Coef(s)
	if c == 0 {
		return a
	}
	out := make([]Term, 0, len(a.T))
	for _, t := range a.T {
		if t.S != s {
			out = append(out, t)
		}
	}
	return Lin{out, a.K}.AddMul(r, c)
}

func (a Lin) Key() string {
	var b []byte
	for _, t := range a.T {
		b = strconv.AppendInt(b, t.C, 10)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.S), 10)
		b = append(b, '+')
	}
	b = strconv.AppendInt(b, a.K, 10)
	return string(b)
}

// tkey is the key of the terms without the constant.
func (a Lin) tkey() string { return Lin{T: a.T}.Key() }

func (a Lin) divGcd() Lin {
	// for e >= 0: divide by the gcd of the coefficients, floor the constant
	if len(a.T) == 0 {
		return a
	}
	g := int64(0)
	for _, t := range a.T {
		g = gcdI(g, t.C)
		if g == 1 {
			return a
		}
	}
	out := make([]Term, len(a.T))
	for i, t := range a.T {
		out[i] = Term{t.S, t.C / g}
	}
	return Lin{out, floorDiv(a.K, g)}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// ---- rationals with an int64 fast path

type Q struct {
	n, d int64 // d > 0
	b    *big.Rat
}

func qi(n int64) Q { return Q{n, 1, nil} }

func (a Q) big() *big.Rat {
	if a.b != nil {
		return a.b
	}
	return big.NewRat(a.n, a.d)
}

func qbig(r *big.Rat) Q {
	if r.Num().IsInt64() && r.Denom().IsInt64() {
		n, d := r.Num().Int64(), r.Denom().Int64()
		if n != math.MinInt64 {
			return Q{n, d, nil}
		}
	}
	return Q{0, 1, r}
}

func (a Q) sign() int {
	if a.b != nil {
		return a.b.Sign()
	}
	if a.n > 0 {
		return 1
	} else if a.n < 0 {
		return -1
	}
	return 0
}

const small = 1 << 30

func qnorm(n, d int64) Q {
	if n == 0 {
		return Q{0, 1, nil}
	}
	if d != 1 {
		g := gcdI(n, d)
		if g != 1 {
			n /= g
			d /= g
		}
	}
	return Q{n, d, nil}
}

func (a Q) isSmall() bool {
	return a.b == nil && a.n < small && a.n > -small && a.d < small
}

func (a Q) add(b Q) Q {
	if a.isSmall() && b.isSmall() {
		if a.d == 1 && b.d == 1 {
			return Q{a.n + b.n, 1, nil}
		}
		return qnorm(a.n*b.d+b.n*a.d, a.d*b.d)
	}
	return qbig(new(big.Rat).Add(a.big(), b.big()))
}

func (a Q) neg() Q {
	if a.b != nil {
		return qbig(new(big.Rat).Neg(a.b))
	}
	return Q{-a.n, a.d, nil}
}

func (a Q) sub(b Q) Q { return a.add(b.neg()) }

func (a Q) mul(b Q) Q {
	if a.isSmall() && b.isSmall() {
		return qnorm(a.n*b.n, a.d*b.d)
	}
	if a.sign() == 0 || b.sign() == 0 {
		return Q{0, 1, nil}
	}
	return qbig(new(big.Rat).Mul(a.big(), b.big()))
}

func (a Q) inv() Q {
	if a.b != nil {
		return qbig(new(big.Rat).Inv(a.b))
	}
	if a.n > 0 {
		return Q{a.d, a.n, nil}
	}
	return Q{-a.d, -a.n, nil}
}

func (a Q) cmp(b Q) int { return a.sub(b).sign() }

func (a Q) ceil() (int64, bool) {
	if a.b != nil {
		n := new(big.Int).Neg(a.b.Num())
		n.Div(n, a.b.Denom()) // Euclidean; denom > 0 so floor
		n.Neg(n)
		if n.IsInt64() {
			return n.Int64(), true
		}
		return 0, false
	}
	return -floorDiv(-a.n, a.d), true
}

// ---- linear programming

type lpStatus int

const (
	lpOK lpStatus = iota
	lpUnbounded
	lpInfeasible // the constraint set is empty
)

// lpMin computes min e subject to all cons >= 0. If stop is set, it may return early with a lower
// bound > *stop.
func lpBig(cons []Lin, e Lin, stop *Q) (Q, lpStatus) {
	if len(e.T) == 0 {
		return qi(e.K), lpOK
	}
	rowOf := map[Sym]int{}
	var syms []Sym
	row := func(s Sym) int {
		r, ok := rowOf[s]
		if !ok {
			r = len(syms)
			rowOf[s] = r
			syms = append(syms, s)
		}
		return r
	}
	for _, t := range e.T {
		row(t.S)
	}
	for _, c := range cons {
		for _, t := range c.T {
			row(t.S)
		}
	}
	m, n := len(syms), len(cons)
	// rows: sum_i lambda_i a_iv = e_v, artificials implicit as the initial basis
	w := n + 1
	tab := make([][]Q, m)
	store := make([]Q, m*w)
	for i := range store {
		store[i].d = 1
	}
	for r := range tab {
		tab[r] = store[r*w : (r+1)*w]
	}
	for i, c := range cons {
		for _, t := range c.T {
			tab[rowOf[t.S]][i] = qi(t.C)
		}
	}
	for _, t := range e.T {
		tab[rowOf[t.S]][n] = qi(t.C)
	}
	basis := make([]int, m)
	obj := make([]Q, w) // phase 1: minimise sum of artificials; reduced costs = -sum rows
	for i := range obj {
		obj[i] = qi(0)
	}
	for r := range tab {
		basis[r] = -1
		if tab[r][n].sign() < 0 {
			for j := range tab[r] {
				if tab[r][j].sign() != 0 {
					tab[r][j] = tab[r][j].neg()
				}
			}
		}
		for j := range obj {
			if tab[r][j].sign() != 0 {
				obj[j] = obj[j].sub(tab[r][j])
			}
		}
	}
	pivot := func(pr, pc int, objs ...[]Q) {
		p := tab[pr]
		iv := p[pc].inv()
		if !(iv.b == nil && iv.n == 1 && iv.d == 1) {
			for j := range p {
				if p[j].sign() != 0 {
					p[j] = p[j].mul(iv)
				}
			}
		}
		elim := func(t []Q) {
			f := t[pc]
			if f.sign() == 0 {
				return
			}
			for j := range t {
				if p[j].sign() != 0 {
					t[j] = t[j].sub(f.mul(p[j]))
				}
			}
		}
		for r := range tab {
			if r != pr {
				elim(tab[r])
			}
		}
		for _, o := range objs {
			elim(o)
		}
		basis[pr] = pc
	}
	choose := func(o []Q, iter int) int {
		best := -1
		for j := 0; j < n; j++ {
			if o[j].sign() < 0 {
				if iter > 60 {
					return j
				}
				if best < 0 || o[j].cmp(o[best]) < 0 {
					best = j
				}
			}
		}
		return best
	}
	ratio := func(pc int) int {
		pr := -1
		var br Q
		for r := range tab {
			if tab[r][pc].sign() > 0 {
				q := tab[r][n].mul(tab[r][pc].inv())
				if pr < 0 {
					pr, br = r, q
					continue
				}
				if c := q.cmp(br); c < 0 || (c == 0 && basis[r] < basis[pr]) {
					pr, br = r, q
				}
			}
		}
		return pr
	}
	for iter := 0; ; iter++ {
		if obj[n].sign() == 0 {
			break
		}
		pc := choose(obj, iter)
		if pc < 0 {
			return Q{}, lpUnbounded
		}
		pr := ratio(pc)
		if pr < 0 {
			return Q{}, lpUnbounded // cannot happen in phase 1
		}
		pivot(pr, pc, obj)
		if iter > 3000 {
			return Q{}, lpUnbounded
		}
	}
	// drive artificials out of the basis (all at zero)
	for r := range tab {
		if basis[r] >= 0 {
			continue
		}
		for j := 0; j < n; j++ {
			if tab[r][j].sign() != 0 {
				pivot(r, j)
				break
			}
		}
		// a row of zeros is redundant
	}
	// phase 2: minimise sum lambda_i c_i; value = e.K - that
	o2 := make([]Q, w)
	for i := range o2 {
		o2[i] = qi(0)
	}
	for i, c := range cons {
		o2[i] = qi(c.K)
	}
	for r := range tab {
		if basis[r] < 0 {
			continue
		}
		f := o2[basis[r]]
		if f.sign() == 0 {
			continue
		}
		for j := range o2 {
			if tab[r][j].sign() != 0 {
				o2[j] = o2[j].sub(f.mul(tab[r][j]))
			}
		}
	}
	for iter := 0; ; iter++ {
		// current objective: -o2[n]; value = e.K + o2[n]
		if stop != nil {
			if v := qi(e.K).add(o2[n]); v.cmp(*stop) > 0 {
				return v, lpOK
			}
		}
		pc := choose(o2, iter)
		if pc < 0 {
			return qi(e.K).add(o2[n]), lpOK
		}
		pr := ratio(pc)
		if pr < 0 {
			return Q{}, lpInfeasible
		}
		pivot(pr, pc, o2)
		if iter > 3000 {
			return qi(e.K).add(o2[n]), lpOK // a valid lower bound
		}
	}
}

// ---- constraint store

type bnd struct {
	lo, hi       int64
	hasLo, hasHi bool
}

type Num struct {
	eqs    map[Sym]Lin // solved form: right-hand sides mention no solved symbol
	ineqs  []Lin       // >= 0, at least two terms
	bounds map[Sym]bnd
	diseqs []Lin // != 0
	ver    int
	bot    bool // a contradiction has been met
}

func NewNum() *Num {
	return &Num{eqs: map[Sym]Lin{}, bounds: map[Sym]bnd{}}
}

func (n *Num) Clone() *Num {
	m := &Num{eqs: make(map[Sym]Lin, len(n.eqs)), bounds: make(map[Sym]bnd, len(n.bounds)), bot: n.bot}
	for k, v := range n.eqs {
		m.eqs[k] = v
	}
	for k, v := range n.bounds {
		m.bounds[k] = v
	}
	m.ineqs = n.ineqs[:len(n.ineqs):len(n.ineqs)]
	m.diseqs = n.diseqs[:len(n.diseqs):len(n.diseqs)]
	return m
}

// symRanges holds the range every symbol has by construction (its machine type).
var symRanges []bnd

func (n *Num) bound(s Sym) bnd {
	b := n.bounds[s]
	r := symRanges[s]
	if r.hasLo && (!b.hasLo || b.lo < r.lo) {
		b.lo, b.hasLo = r.lo, true
	}
	if r.hasHi && (!b.hasHi || b.hi > r.hi) {
		b.hi, b.hasHi = r.hi, true
	}
	return b
}

func (n *Num) Norm(a Lin) (out Lin) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			out = a
		}
	}()
	return n.norm(a)
}

func (n *Num) norm(a Lin) Lin {
	for i := 0; i < len(a.T); i++ {
		if r, ok := n.eqs[a.T[i].S]; ok {
			out := Lin{K: a.K}
			for _, t := range a.T {
				if r2, ok2 := n.eqs[t.S]; ok2 {
					out = out.AddMul(r2, t.C)
				} else {
					out = out.AddMul(S(t.S), t.C)
				}
			}
			_ = r
			return out
		}
	}
	return a
}

// interval of a normalised expression
func (n *Num) interval(a Lin) (lo, hi int64, hasLo, hasHi bool) {
	lo, hasLo = n.intervalSide(a, false)
	hi, hasHi = n.intervalSide(a, true)
	return
}

func (n *Num) intervalSide(a Lin, upper bool) (v int64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			ok = false
		}
	}()
	v = a.K
	for _, t := range a.T {
		b := n.bound(t.S)
		if (t.C > 0) == upper {
			if !b.hasHi {
				return 0, false
			}
			v = addI(v, mulI(t.C, b.hi))
		} else {
			if !b.hasLo {
				return 0, false
			}
			v = addI(v, mulI(t.C, b.lo))
		}
	}
	return v, true
}

// relevant returns the constraints reachable from e within the given number of hops.
func (n *Num) relevant(e Lin, hops int) (cons []Lin, all bool) {
	in := map[Sym]bool{}
	for _, t := range e.T {
		in[t.S] = true
	}
	used := make([]bool, len(n.ineqs))
	all = true
	for h := 0; h < hops; h++ {
		changed := false
		for i, c := range n.ineqs {
			if used[i] {
				continue
			}
			for _, t := range c.T {
				if in[t.S] {
					used[i] = true
					break
				}
			}
		}
		for i, c := range n.ineqs {
			if !used[i] {
				continue
			}
			for _, t := range c.T {
				if !in[t.S] {
					in[t.S] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
		if h == hops-1 {
			all = false
		}
	}
	for i, c := range n.ineqs {
		if used[i] {
			cons = append(cons, c)
		}
	}
	var ss []Sym
	for s := range in {
		ss = append(ss, s)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, s := range ss {
		b := n.bound(s)
		if b.hasLo {
			if b.lo != math.MinInt64 {
				cons = append(cons, S(s).SubK(b.lo))
			}
		}
		if b.hasHi {
			cons = append(cons, Lin{T: []Term{{s, -1}}, K: b.hi})
		}
	}
	return
}

var lpCount int

// Entails reports whether a >= 0 holds.
func (n *Num) Entails(a Lin) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(overflow); !ok {
				panic(r)
			}
			res = false
		}
	}()
	a = n.Norm(a).divGcd()
	if len(a.T) == 0 {
		return a.K >= 0
	}
	if lo, _, ok, _ := n.interval(a); ok && lo >= 0 {
		return true
	}
	tk := a.tkeyBytes()
	for _, c := range n.ineqs {
		if len(c.T) == len(a.T) && c.K <= a.K && sameTerms(c, a) {
			return true
		}
	}
	_ = tk
	if len(n.ineqs) == 0 {
		return false
	}
	stop := qi(-1)
	prev := -1
	for _, h := range []int{1, 2, 4, 100} {
		cons, all := n.relevant(a, h)
		if len(cons) == prev {
			if all {
				break
			}
			continue
		}
		prev = len(cons)
		if len(cons) == 0 {
			return false
		}
		lpCount++
		v, st := lpMin(cons, a, &stop)
		if st == lpInfeasible || (st == lpOK && v.cmp(stop) > 0) {
			return true
		}
		if all {
			break
		}
	}
	// a disequality next to the bound: a >= -1 and a != -1
	for _, d := range n.diseqs {
		if sameTerms(d, a) && d.K == a.K+1 || sameTermsNeg(d, a) && d.K == -a.K-1 {
			if n.entailsRaw(a.AddK(1)) {
				return true
			}
		}
	}
	return false
}

func (n *Num) entailsRaw(a Lin) bool {
	save := n.diseqs
	n.diseqs = nil
	defer func() { n.diseqs = save }()
	return n.Entails(a)
}

func (a Lin) tkeyBytes() int { return len(a.T) }

func sameTerms(a, b Lin) bool {
	if len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func sameTermsNeg(a, b Lin) bool {
	if len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i].S != b.T[i].S || a.T[i].C != -b.T[i].C {
			return false
		}
	}
	return true
}

// Min returns the greatest provable integer lower bound of a.
func (n *Num) Min(a Lin) (v int64, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			v, ok = 0, false
		}
	}()
	a = n.Norm(a)
	if len(a.T) == 0 {
		return a.K, true
	}
	cons, _ := n.relevant(a, 100)
	if len(cons) == 0 {
		return 0, false
	}
	lpCount++
	q, st := lpMin(cons, a, nil)
	if st != lpOK {
		lo, _, has, _ := n.interval(a)
		return lo, has
	}
	return q.ceil()
}

func (n *Num) Max(a Lin) (int64, bool) {
	v, ok := n.Min(a.Neg())
	if !ok || v == math.MinInt64 {
		return 0, false
	}
	return -v, true
}

func (n *Num) EntailsEq(a Lin) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			res = false
		}
	}()
	a = n.Norm(a)
	if len(a.T) == 0 {
		return a.K == 0
	}
	return n.Entails(a) && n.Entails(a.Neg())
}

func (n *Num) EntailsNe(a Lin) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			res = false
		}
	}()
	a = n.Norm(a)
	if len(a.T) == 0 {
		return a.K != 0
	}
	g := int64(0)
	for _, t := range a.T {
		g = gcdI(g, t.C)
	}
	if g > 1 && a.K%g != 0 {
		return true
	}
	for _, d := range n.diseqs {
		if (sameTerms(d, a) && d.K == a.K) || (sameTermsNeg(d, a) && d.K == -a.K) {
			return true
		}
	}
	return n.Entails(a.AddK(-1)) || n.Entails(a.Neg().AddK(-1))
}

// AssumeGe adds a >= 0. Returns false when that is contradictory.
func (n *Num) AssumeGe(a Lin) (feasible bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			feasible = true // dropped: sound
		}
	}()
	a = n.Norm(a).divGcd()
	if len(a.T) == 0 {
		return a.K >= 0
	}
	if n.Entails(a) {
		return true
	}
	// -a-1, without the intermediate step that overflows for the least integer
	not := Lin{T: a.T}.Neg()
	not.K = -addI(a.K, 1)
	if n.Entails(not) {
		return false
	}
	// an equality when the opposite side is also entailed
	if a.K != math.MinInt64 && n.Entails(a.Neg()) {
		return n.AssumeEq(a)
	}
	n.addIneq(a)
	// tighten with disequalities
	for i := 0; i < len(n.diseqs); i++ {
		d := n.diseqs[i]
		if sameTerms(d, a) || sameTermsNeg(d, a) {
			if n.entailsRaw(d) {
				rest := append(append([]Lin{}, n.diseqs[:i]...), n.diseqs[i+1:]...)
				n.diseqs = rest
				return n.AssumeGe(d.AddK(-1))
			}
			if n.entailsRaw(d.Neg()) {
				rest := append(append([]Lin{}, n.diseqs[:i]...), n.diseqs[i+1:]...)
				n.diseqs = rest
				return n.AssumeGe(d.Neg().AddK(-1))
			}
		}
	}
	return true
}

func (n *Num) addIneq(a Lin) {
	n.ver++
	if len(a.T) == 1 {
		t := a.T[0]
		b := n.bound(t.S)
		// t.C is +-1 after divGcd
		if t.C > 0 {
			v := -a.K
			if !b.hasLo || v > b.lo {
				b.lo, b.hasLo = v, true
			}
		} else {
			v := a.K
			if !b.hasHi || v < b.hi {
				b.hi, b.hasHi = v, true
			}
		}
		n.bounds[t.S] = b
		if b.hasLo && b.hasHi && b.lo == b.hi {
			n.solve(t.S, K(b.lo))
		}
		return
	}
	for i, c := range n.ineqs {
		if sameTerms(c, a) {
			if c.K > a.K {
				ni := append([]Lin{}, n.ineqs...)
				ni[i] = a
				n.ineqs = ni
			}
			return
		}
	}
	n.ineqs = append(n.ineqs[:len(n.ineqs):len(n.ineqs)], a)
}

// solve records s = r (r mentions no solved symbol and not s).
func (n *Num) solve(s Sym, r Lin) {
	n.ver++
	n.eqs[s] = r
	for k, v := range n.eqs {
		if v.Coef(s) != 0 {
			n.eqs[k] = v.Subst(s, r)
		}
	}
	old := n.ineqs
	n.ineqs = nil
	var re []Lin
	for _, c := range old {
		if c.Coef(s) != 0 {
			re = appendLin(re, func() Lin { return c.Subst(s, r) })
		} else {
			n.ineqs = append(n.ineqs, c)
		}
	}
	if b := n.bound(s); true {
		delete(n.bounds, s)
		if b.hasLo {
			re = appendLin(re, func() Lin { return r.SubK(b.lo) })
		}
		if b.hasHi {
			re = appendLin(re, func() Lin { return r.Neg().AddK(b.hi) })
		}
	}
	oldD := n.diseqs
	n.diseqs = nil
	for _, d := range oldD {
		if d.Coef(s) != 0 {
			d = d.Subst(s, r)
			if len(d.T) == 0 {
				continue
			}
		}
		n.diseqs = append(n.diseqs, d)
	}
	for _, c := range re {
		guard(func() { // dropped when a coefficient overflows: sound
			c = n.Norm(c).divGcd()
			if len(c.T) > 0 {
				n.addIneq(c)
			}
		})
	}
}

// AssumeEq adds a == 0. Returns false when that is contradictory.
func (n *Num) AssumeEq(a Lin) (feasible bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			feasible = true
		}
	}()
	a = n.Norm(a)
	if len(a.T) == 0 {
		return a.K == 0
	}
	g := int64(0)
	for _, t := range a.T {
		g = gcdI(g, t.C)
	}
	if a.K%g != 0 {
		return false
	}
	if g > 1 {
		out := make([]Term, len(a.T))
		for i, t := range a.T {
			out[i] = Term{t.S, t.C / g}
		}
		a = Lin{out, a.K / g}
	}
	if n.EntailsNe(a) {
		return false
	}
	// newest symbol with a unit coefficient
	for i := len(a.T) - 1; i >= 0; i-- {
		t := a.T[i]
		if t.C == 1 || t.C == -1 {
			rest := Lin{K: a.K}
			for _, u := range a.T {
				if u.S != t.S {
					rest.T = append(rest.T, u)
				}
			}
			r := rest.Mul(-t.C)
			n.solve(t.S, r)
			return true
		}
	}
	n.addIneq(a)
	n.addIneq(a.Neg())
	return true
}

func (n *Num) AssumeNe(a Lin) bool {
	a = n.Norm(a)
	if len(a.T) == 0 {
		return a.K != 0
	}
	if n.EntailsNe(a) {
		return true
	}
	if n.Entails(a) {
		return n.AssumeGe(a.AddK(-1))
	}
	if n.Entails(a.Neg()) {
		return n.AssumeGe(a.Neg().AddK(-1))
	}
	n.diseqs = append(n.diseqs[:len(n.diseqs):len(n.diseqs)], a)
	return true
}

func (n *Num) String(name func(Sym) string) string {
	var b strings.Builder
	var ks []int
	for k := range n.eqs {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s = %s\n", name(Sym(k)), n.eqs[Sym(k)].Str(name))
	}
	ks = nil
	for k := range n.bounds {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	for _, k := range ks {
		bd := n.bounds[Sym(k)]
		lo, hi := "-inf", "+inf"
		if bd.hasLo {
			lo = fmt.Sprint(bd.lo)
		}
		if bd.hasHi {
			hi = fmt.Sprint(bd.hi)
		}
		fmt.Fprintf(&b, "  %s in [%s,%s]\n", name(Sym(k)), lo, hi)
	}
	for _, c := range n.ineqs {
		fmt.Fprintf(&b, "  %s >= 0\n", c.Str(name))
	}
	for _, c := range n.diseqs {
		fmt.Fprintf(&b, "  %s != 0\n", c.Str(name))
	}
	return b.String()
}

func (a Lin) Str(name func(Sym) string) string {
	var b strings.Builder
	for i, t := range a.T {
		c := t.C
		if i > 0 {
			if c < 0 {
				b.WriteString(" - ")
				c = -c
			} else {
				b.WriteString(" + ")
			}
		} else if c < 0 {
			b.WriteString("-")
			c = -c
		}
		if c != 1 {
			fmt.Fprintf(&b, "%d*", c)
		}
		b.WriteString(name(t.S))
	}
	if a.K != 0 || len(a.T) == 0 {
		if len(a.T) > 0 && a.K >= 0 {
			b.WriteString(" + ")
		} else if len(a.T) > 0 {
			b.WriteString(" - ")
			if a.K != math.MinInt64 {
				fmt.Fprintf(&b, "%d", -a.K)
				return b.String()
			}
		}
		fmt.Fprintf(&b, "%d", a.K)
	}
	return b.String()
}

// appendLin appends f() unless it overflows (dropping a constraint is sound).
func appendLin(l []Lin, f func() Lin) (out []Lin) {
	out = l
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(overflow); !ok {
				panic(r)
			}
		}
	}()
	return append(l, f())
}

// EntailsEq0 is EntailsEq by the recorded equalities alone.
func (n *Num) EntailsEq0(a Lin) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			res = false
		}
	}()
	a = n.Norm(a)
	return len(a.T) == 0 && a.K == 0
}

// sameLin tells whether two expressions are equal by the recorded equalities alone.
func (n *Num) sameLin(a, b Lin) (res bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isO := r.(overflow); !isO {
				panic(r)
			}
			res = false
		}
	}()
	return n.EntailsEq0(a.Sub(b))
}
