package main

// Arithmetic on abstract values. Operations may split the state into cases.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
)

type vs struct {
	st *State
	v  Val
}

type bitD struct {
	L Lin
	k int
}

// guard runs f and reports whether it finished without overflowing a coefficient.
func guard(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(overflow); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f()
	return true
}

// ---- conditions

// split decides a condition: the states in which it holds and in which it does not (nil: infeasible).
func (c *Ctx) split(st *State, b BoolV) (yes, no *State) {
	switch b.K {
	case bConst:
		if b.B {
			return st, nil
		}
		return nil, st
	case bGe:
		if st.num.Entails(b.L) {
			return st, nil
		}
		var neg Lin
		if !guard(func() { neg = b.L.Neg().AddK(-1) }) {
			return st, st.Clone()
		}
		if st.num.Entails(neg) {
			return nil, st
		}
		no = st.Clone()
		if !st.num.AssumeGe(b.L) {
			st = nil
		}
		if !no.num.AssumeGe(neg) {
			no = nil
		}
		return st, no
	case bEq, bNe:
		if st.num.EntailsEq(b.L) {
			yes, no = st, nil
		} else if st.num.EntailsNe(b.L) {
			yes, no = nil, st
		} else {
			no = st.Clone()
			yes = st
			if !yes.num.AssumeEq(b.L) {
				yes = nil
			}
			if !no.num.AssumeNe(b.L) {
				no = nil
			}
		}
		if b.K == bNe {
			return no, yes
		}
		return yes, no
	}
	panic("split")
}

func (b BoolV) Not() BoolV {
	switch b.K {
	case bConst:
		return BoolV{B: !b.B}
	case bGe:
		var l Lin
		if guard(func() { l = b.L.Neg().AddK(-1) }) {
			return BoolV{K: bGe, L: l}
		}
		panic(overflow{})
	case bEq:
		return BoolV{K: bNe, L: b.L}
	}
	return BoolV{K: bEq, L: b.L}
}

func boolC(b bool) BoolV { return BoolV{B: b} }

func geB(l Lin) BoolV {
	if l.IsConst() {
		return boolC(l.K >= 0)
	}
	return BoolV{K: bGe, L: l}
}

func eqB(l Lin) BoolV {
	if l.IsConst() {
		return boolC(l.K == 0)
	}
	return BoolV{K: bEq, L: l}
}

// unknownBool is a fresh undetermined condition.
func (c *Ctx) unknownBool(name string) BoolV {
	return BoolV{K: bNe, L: S(c.symIn(name, ip(0), ip(1)))}
}

func (c *Ctx) keyedBool(key string) BoolV {
	y, _ := c.consSym("b|"+key, "cond", ip(0), ip(1))
	return BoolV{K: bNe, L: S(y)}
}

// boolLin is the condition as a 0/1 value when it is one.
func boolLin(b BoolV) (Lin, bool) {
	if b.K == bConst {
		if b.B {
			return K(1), true
		}
		return K(0), true
	}
	if b.K == bNe {
		if s, ok := b.L.IsSym(); ok {
			r := symRanges[s]
			if r.hasLo && r.hasHi && r.lo == 0 && r.hi == 1 {
				return b.L, true
			}
		}
	}
	return Lin{}, false
}

// ---- bits

func pow2(k int) int64 { return int64(1) << uint(k) }

func intrinsic(l Lin) (lo, hi int64, okLo, okHi bool) {
	return (&Num{eqs: map[Sym]Lin{}, bounds: map[Sym]bnd{}}).interval(l)
}

// hi is floor(x / 2^k).
func (c *Ctx) hi(st *State, x Lin, k int) Lin {
	if k == 0 {
		return x
	}
	if k >= 63 {
		lo, ok := st.num.Min(x)
		if ok && lo >= 0 && k == 63 {
			if h, ok := st.num.Max(x); ok && h <= math.MaxInt64 {
				c.impure = true
				return K(0)
			}
		}
		return c.divFloorSym(st, x, 0, fmt.Sprintf("hi|%s|%d", x.Key(), k))
	}
	return c.divFloor(st, x, pow2(k))
}

// divFloor is floor(x / d), d > 0.
func (c *Ctx) divFloor(st *State, x Lin, d int64) Lin {
	if d == 1 {
		return x
	}
	if x.IsConst() {
		return K(floorDiv(x.K, d))
	}
	m, rest := Lin{}, Lin{}
	for _, t := range x.T {
		if t.C%d == 0 {
			m.T = append(m.T, Term{t.S, t.C / d})
		} else {
			rest.T = append(rest.T, t)
		}
	}
	m.K = floorDiv(x.K, d)
	rest.K = x.K - m.K*d
	if len(rest.T) == 0 {
		return m
	}
	if lo, hi, a, b := st.num.interval(st.num.Norm(rest)); a && b && floorDiv(lo, d) == floorDiv(hi, d) {
		if l2, h2, a, b := intrinsic(rest); !a || !b || floorDiv(l2, d) != floorDiv(h2, d) {
			c.impure = true
		}
		return m.AddK(floorDiv(lo, d))
	}
	q := c.divFloorSym(st, rest, d, fmt.Sprintf("div|%s|%d", rest.Key(), d))
	return m.Add(q)
}

func (c *Ctx) divFloorSym(st *State, x Lin, d int64, key string) Lin {
	lo, hi, a, b := intrinsic(x)
	var pl, ph *int64
	if d > 0 {
		if a {
			pl = ip(floorDiv(lo, d))
		}
		if b {
			ph = ip(floorDiv(hi, d))
		}
	}
	y, isNew := c.consSym(key, "q", pl, ph)
	if isNew && d > 0 && d&(d-1) == 0 {
		k := 0
		for pow2(k) != d {
			k++
		}
		c.hiOf[y] = bitD{x, k}
	}
	if d > 0 {
		guard(func() { st.num.AssumeGe(x.Sub(S(y).Mul(d))) })
		guard(func() { st.num.AssumeGe(S(y).Mul(d).AddK(d - 1).Sub(x)) })
		// whole-number bounds, which the inequalities above do not imply over the rationals
		if _, solved := st.num.eqs[y]; !solved {
			guard(func() {
				l, h, a, b := st.num.interval(st.num.Norm(x))
				o := st.num.bound(y)
				if a && (!o.hasLo || o.lo < floorDiv(l, d)) && floorDiv(l, d) > math.MinInt64/2 {
					st.num.addIneq(S(y).SubK(floorDiv(l, d)))
				}
				if b && (!o.hasHi || o.hi > floorDiv(h, d)) && floorDiv(h, d) < math.MaxInt64/2 {
					st.num.addIneq(K(floorDiv(h, d)).Sub(S(y)))
				}
			})
		}
	}
	return S(y)
}

func (c *Ctx) bitID(L Lin, k int) int32 {
	key := fmt.Sprintf("%s@%d", L.Key(), k)
	if id, ok := c.bitIDs[key]; ok {
		return id
	}
	id := int32(len(c.bitDef)) * 2
	c.bitDef = append(c.bitDef, bitD{L, k})
	c.bitIDs[key] = id
	return id
}

// bitsOf returns the 64 bits of x mod 2^64.
func (c *Ctx) bitsOf(st *State, x Lin) *BitVec {
	if v, ok := c.linBit[x.Key()]; ok {
		return v
	}
	n := st.num.Norm(x)
	if v, ok := c.linBit[n.Key()]; ok {
		return v
	}
	v := &BitVec{}
	if n.IsConst() {
		for k := range v {
			v[k] = int32(uint64(n.K) >> uint(k) & 1)
		}
		return v
	}
	g := n.K
	for _, t := range n.T {
		g = gcdI(g, t.C)
	}
	if g > 1 && g&1 == 0 {
		p := 0
		for g&1 == 0 {
			g >>= 1
			p++
		}
		d := Lin{K: n.K / pow2(p)}
		for _, t := range n.T {
			d.T = append(d.T, Term{t.S, t.C / pow2(p)})
		}
		in := c.bitsOf(st, d)
		copy(v[p:], in[:64-p])
		return v
	}
	if r, ok := c.disjoint(st, n); ok {
		return r
	}
	if len(x.T) == 1 && x.T[0].C == 1 && x.K == 0 {
		n = x // prefer the symbol as written
	}
	if y, ok := n.IsSym(); ok {
		if d, ok := c.hiOf[y]; ok {
			if c.bitActive == nil {
				c.bitActive = map[Sym]bool{}
			}
			var in *BitVec
			if c.bitActive[y] {
				// the operand is known by its high part: the bits are the operand's own
				in = c.rawBits(st, d.L)
			} else {
				c.bitActive[y] = true
				in = c.bitsOf(st, d.L)
				delete(c.bitActive, y)
			}
			copy(v[:], in[d.k:])
			if lo, ok := st.num.Min(d.L); !ok || lo < 0 {
				for k := 64 - d.k; k < 64; k++ {
					v[k] = in[63]
				}
			}
			return v
		}
	}
	return c.rawBits(st, n)
}

func (c *Ctx) rawBits(st *State, n Lin) *BitVec {
	v := &BitVec{}
	w := 64
	lo, hi, a, b := st.num.interval(st.num.Norm(n))
	if a && lo >= 0 && b {
		for w = 0; w < 63 && pow2(w) <= hi; w++ {
		}
	}
	for k := 0; k < w; k++ {
		v[k] = c.bitID(n, k)
	}
	return v
}

// disjoint assembles the bits of a sum whose terms occupy disjoint bit ranges.
func (c *Ctx) disjoint(st *State, n Lin) (*BitVec, bool) {
	if len(n.T) < 2 && n.K == 0 || n.K < 0 {
		return nil, false
	}
	v := &BitVec{}
	for k := range v {
		v[k] = int32(uint64(n.K) >> uint(k) & 1)
	}
	for _, t := range n.T {
		if t.C < 1 || t.C&(t.C-1) != 0 {
			return nil, false
		}
		p := 0
		for pow2(p) != t.C {
			p++
		}
		b := st.num.bound(t.S)
		if !b.hasLo || !b.hasHi || b.lo < 0 || b.hi > 1<<40 {
			return nil, false
		}
		in := c.bitsOf(st, S(t.S))
		for k := 0; k < 64; k++ {
			if in[k] == 0 {
				continue
			}
			if k+p >= 64 || v[k+p] != 0 {
				return nil, false
			}
			v[k+p] = in[k]
		}
	}
	return v, true
}

// fromBits is the value of the low w bits.
func (c *Ctx) fromBits(st *State, v *BitVec, w int, signed bool) Lin {
	var t BitVec
	copy(t[:w], v[:w])
	if signed && w < 64 {
		for k := w; k < 64; k++ {
			t[k] = t[w-1]
		}
	}
	var out Lin
	c.impure = false
	ok := guard(func() { out = c.sumBits(st, &t, w, signed) })
	if !ok {
		key := fmt.Sprintf("bv|%v|%v", t, signed)
		lo := ip(0)
		if signed {
			lo = ip(math.MinInt64)
		}
		y, _ := c.consSym(key, "bits", lo, nil)
		out = S(y)
	}
	if !out.IsConst() && !c.impure {
		if _, ok := c.linBit[out.Key()]; !ok {
			cp := t
			c.linBit[out.Key()] = &cp
		}
	}
	return out
}

func (c *Ctx) sumBits(st *State, t *BitVec, w int, signed bool) Lin {
	out := Lin{}
	for p := 0; p < w; {
		id := t[p]
		if id == 0 {
			p++
			continue
		}
		if id == 1 {
			if p == 63 {
				if !signed {
					panic(overflow{})
				}
				out = out.AddK(math.MinInt64)
			} else {
				out = out.AddK(pow2(p))
			}
			p++
			continue
		}
		d := c.bitDef[id/2]
		neg := id&1 == 1
		n := 1
		dk := d.L.Key()
		for p+n < w {
			id2 := t[p+n]
			if id2 < 2 || (id2&1 == 1) != neg {
				break
			}
			d2 := c.bitDef[id2/2]
			if d2.k != d.k+n || d2.L.Key() != dk {
				break
			}
			n++
		}
		if n == 64 {
			if lo, ok := st.num.Min(d.L); !neg && (signed || ok && lo >= 0) {
				return d.L
			}
			panic(overflow{})
		}
		top := Lin{}
		loL, hiL, a, b := st.num.interval(st.num.Norm(d.L))
		if !(a && b && loL >= 0 && d.k+n < 63 && hiL < pow2(d.k+n)) {
			top = c.hi(st, d.L, d.k+n)
		} else if l2, h2, a, b := intrinsic(d.L); !a || !b || l2 < 0 || h2 >= pow2(d.k+n) {
			c.impure = true
		}
		if n >= 63 {
			panic(overflow{})
		}
		ex := c.hi(st, d.L, d.k).AddMul(top, -pow2(n))
		guard(func() { st.num.AssumeGe(ex) })
		guard(func() { st.num.AssumeGe(K(pow2(n) - 1).Sub(ex)) })
		if neg {
			ex = K(pow2(n) - 1).Sub(ex)
		}
		if p+n == 64 && signed {
			// the top bit counts negatively; only handled when the run is that bit alone or the sum is small
			panic(overflow{})
		}
		out = out.AddMul(ex, pow2(p))
		if signed && p+n == w && w < 64 {
			tb := c.hi(st, d.L, d.k+n-1).AddMul(top, -2)
			guard(func() { st.num.AssumeGe(tb) })
			guard(func() { st.num.AssumeGe(K(1).Sub(tb)) })
			if neg {
				tb = K(1).Sub(tb)
			}
			out = out.AddMul(tb, -pow2(w))
		}
		p += n
	}
	if signed && w < 64 && t[w-1] == 1 {
		out = out.AddK(-pow2(w))
	}
	return out
}

func (c *Ctx) opaqueBit(key string) int32 {
	y, _ := c.consSym("bit|"+key, "bit", ip(0), ip(1))
	return c.bitID(S(y), 0)
}

func (c *Ctx) bitAnd(a, b int32) int32 {
	switch {
	case a == 0 || b == 0 || a == b^1:
		return 0
	case a == 1:
		return b
	case b == 1 || a == b:
		return a
	}
	if a > b {
		a, b = b, a
	}
	return c.opaqueBit(fmt.Sprintf("and|%d|%d", a, b))
}

func (c *Ctx) bitXor(a, b int32) int32 {
	switch {
	case a < 2:
		return b ^ a
	case b < 2:
		return a ^ b
	case a == b:
		return 0
	case a == b^1:
		return 1
	}
	n := (a & 1) ^ (b & 1)
	a, b = a&^1, b&^1
	if a > b {
		a, b = b, a
	}
	return c.opaqueBit(fmt.Sprintf("xor|%d|%d", a, b)) ^ n
}

// ---- integers

func typeBits(t types.Type) (w int, signed bool) {
	w, signed, ok := intInfo(t)
	if !ok {
		panic(fmt.Sprintf("not an integer type: %v", t))
	}
	return
}

// inRange builds the two range obligations of a type (nil: unrepresentable but vacuous).
func rangeLins(x Lin, w int, signed bool) (ge, le *Lin) {
	mk := func(f func() Lin) *Lin {
		var l Lin
		if guard(func() { l = f() }) {
			return &l
		}
		return nil
	}
	if !signed {
		ge = &x
		if w < 64 {
			le = mk(func() Lin { return K(pow2(w) - 1).Sub(x) })
		}
		return
	}
	if w < 64 {
		ge = mk(func() Lin { return x.AddK(pow2(w - 1)) })
		le = mk(func() Lin { return K(pow2(w-1) - 1).Sub(x) })
		return
	}
	ge = mk(func() Lin { return x.AddK(1 << 62).AddK(1 << 62) })
	le = mk(func() Lin { return K(math.MaxInt64).Sub(x) })
	return
}

// okLo and okHi report whether x provably stays in the range of int64.
func okLo(st *State, x Lin) (ok bool) {
	guard(func() { ok = st.num.Entails(x.AddK(1 << 62)) })
	if !ok {
		guard(func() { ok = st.num.Entails(x.AddK(1 << 62).AddK(1 << 62)) })
	}
	return
}

func okHi(st *State, x Lin) (ok bool) {
	guard(func() { ok = st.num.Entails(K(1 << 62).Sub(x)) })
	if !ok {
		guard(func() { ok = st.num.Entails(K(math.MaxInt64).Sub(x)) })
	}
	return
}

// fits reports whether x is provably in range of the type.
func (c *Ctx) fits(st *State, x Lin, w int, signed bool) (res bool) {
	var n Lin
	if !guard(func() { n = st.num.Norm(x) }) {
		return false
	}
	if s, ok := n.IsSym(); ok && w == 64 && signed {
		b := st.num.bound(s)
		if b.hasLo && b.hasHi {
			return true
		}
	}
	lo, hi, a, b := st.num.interval(n)
	if a && b {
		if signed && w == 64 {
			return true
		}
		if signed && lo >= -pow2(w-1) && hi <= pow2(w-1)-1 {
			return true
		}
		if !signed && lo >= 0 && (w == 64 || hi <= pow2(w)-1) {
			return true
		}
	}
	ge, le := rangeLins(n, w, signed)
	if signed && w == 64 {
		return okLo(st, n) && okHi(st, n)
	}
	if !signed && w == 64 {
		if !st.num.Entails(n) {
			return false
		}
		// an upper bound: the symbols of uint64 type have none; only accept a plain symbol or a bounded sum
		if s, ok := n.IsSym(); ok {
			_ = s
			return true
		}
		if b {
			return true
		}
		_, ok := st.num.Max(n)
		return ok
	}
	return ge != nil && le != nil && st.num.Entails(*ge) && st.num.Entails(*le)
}

// wrapAdd yields the cases of x (a sum or difference of in-range values) wrapped to the type.
func (c *Ctx) wrap(st *State, x Lin, t types.Type, name string) []vs {
	w, signed := typeBits(t)
	if c.fits(st, x, w, signed) {
		return []vs{{st, IntV{x}}}
	}
	if w < 64 {
		lo, okLo := st.num.Min(x)
		hi, okHi := st.num.Max(x)
		base := int64(0)
		if signed {
			base = pow2(w - 1)
		}
		if okLo && okHi && hi < math.MaxInt64-base && lo > math.MinInt64/2 {
			k0, k1 := floorDiv(lo+base, pow2(w)), floorDiv(hi+base, pow2(w))
			if k1-k0 < 4 {
				var out []vs
				for k := k0; k <= k1; k++ {
					s := st
					if k < k1 {
						s = st.Clone()
					}
					y := x.AddK(-k * pow2(w))
					ge, le := rangeLins(y, w, signed)
					if s.num.AssumeGe(*ge) && s.num.AssumeGe(*le) {
						out = append(out, vs{s, IntV{y}})
					}
				}
				return out
			}
		}
		return []vs{{st, IntV{c.fromBits(st, c.bitsOf(st, x), w, signed)}}}
	}
	// 64 bits: in range, above, below
	var out []vs
	ge, le := rangeLins(x, w, signed)
	in := st.Clone()
	ok := true
	if ge != nil {
		ok = in.num.AssumeGe(*ge)
	}
	if ok && le != nil {
		ok = in.num.AssumeGe(*le)
	}
	if ok {
		out = append(out, vs{in, IntV{x}})
	}
	mkFresh := func(s *State, dir string, l, h *int64) {
		y, _ := c.consSym(fmt.Sprintf("wrap%s|%s|%v", dir, x.Key(), signed), name+"~", l, h)
		c.inv[y] = x
		if !signed && dir == "-" {
			if c.wrapLow == nil {
				c.wrapLow = map[Sym]bool{}
			}
			c.wrapLow[y] = true
		}
		out = append(out, vs{s, IntV{S(y)}})
	}
	if signed {
		if !okHi(st, x) {
			s := st.Clone()
			ok := true
			guard(func() { ok = s.num.AssumeGe(x.AddK(-math.MaxInt64).AddK(-1)) })
			if ok {
				mkFresh(s, "+", ip(math.MinInt64), ip(-1))
			}
		}
		if !okLo(st, x) {
			s := st.Clone()
			ok := true
			guard(func() { ok = s.num.AssumeGe(x.Neg().AddK(-(1 << 62)).AddK(-(1 << 62)).AddK(-1)) })
			if ok {
				mkFresh(s, "-", ip(0), ip(math.MaxInt64))
			}
		}
	} else {
		if _, _, _, b := st.num.interval(st.num.Norm(x)); !b {
			s := st.Clone()
			if s.num.AssumeGe(x) {
				mkFresh(s, "+", ip(0), nil)
			}
		}
		if !st.num.Entails(x) {
			s := st.Clone()
			if s.num.AssumeGe(x.Neg().AddK(-1)) {
				mkFresh(s, "-", ip(0), nil)
			}
		}
	}
	return out
}

// convInt converts an integer value to another integer type.
func (c *Ctx) convInt(st *State, x Lin, from, to types.Type) []vs {
	w, signed := typeBits(to)
	fw, fs := typeBits(from)
	if (fs == signed && fw <= w) || (!fs && fw < w) || c.fits(st, x, w, signed) {
		return []vs{{st, IntV{x}}}
	}
	if w == 64 {
		n := st.num.Norm(x)
		if s, ok := n.IsSym(); ok {
			if orig, ok := c.inv[s]; ok && strings.HasPrefix(c.names[s], "as64") {
				return []vs{{st, IntV{orig}}}
			}
			// a value that went below zero by less than 2^63 becomes itself again
			if orig, ok := c.inv[s]; ok && signed && c.wrapLow[s] && st.num.Entails(orig.Neg().AddK(-1)) {
				if lo, ok := st.num.Min(orig); ok && lo > math.MinInt64 {
					return []vs{{st, IntV{orig}}}
				}
			}
		}
		if signed { // from uint64
			in, over := c.split(st, geB(K(math.MaxInt64).Sub(x)))
			var out []vs
			if in != nil {
				out = append(out, vs{in, IntV{x}})
			}
			if over != nil {
				y, _ := c.consSym("as64s|"+x.Key(), "as64", ip(math.MinInt64), ip(-1))
				c.inv[y] = x
				out = append(out, vs{over, IntV{S(y)}})
			}
			return out
		}
		in, neg := c.split(st, geB(x))
		var out []vs
		if in != nil {
			out = append(out, vs{in, IntV{x}})
		}
		if neg != nil {
			y, _ := c.consSym("as64u|"+x.Key(), "as64", ip(0), nil)
			c.inv[y] = x
			out = append(out, vs{neg, IntV{S(y)}})
		}
		return out
	}
	if fw > w || fs != signed {
		lo, okLo := st.num.Min(x)
		hi, okHi := st.num.Max(x)
		if okLo && okHi && lo > math.MinInt64/4 && hi < math.MaxInt64/4 && hi-lo < 2*pow2(w) && signed {
			return c.wrap(st, x, to, "conv")
		}
	}
	return []vs{{st, IntV{c.fromBits(st, c.bitsOf(st, x), w, signed)}}}
}

func (c *Ctx) freshT(st *State, key, name string, t types.Type) Lin {
	lo, hi := typeRange(t)
	y, _ := c.consSym(key, name, lo, hi)
	return S(y)
}

// enumerate splits a state over the values of x when there are at most max of them.
func (c *Ctx) enumerate(st *State, x Lin, max int64) ([]vs, bool) {
	x = st.num.Norm(x)
	if x.IsConst() {
		return []vs{{st, IntV{x}}}, true
	}
	lo, a := st.num.Min(x)
	hi, b := st.num.Max(x)
	if !a || !b || hi-lo >= max || hi-lo < 0 {
		return nil, false
	}
	var out []vs
	if os.Getenv("FULL") != "" {
		println("ENUM", x.Str(c.name), st.num.String(c.name), fmt.Sprint(st.trace))
	}
	for v := lo; v <= hi; v++ {
		s := st
		if v < hi {
			s = st.Clone()
		}
		if s.num.AssumeEq(x.SubK(v)) {
			out = append(out, vs{s, IntV{K(v)}})
		}
	}
	return out, true
}

func (c *Ctx) mulInt(st *State, x, y Lin, t types.Type) []vs {
	nx, ny := st.num.Norm(x), st.num.Norm(y)
	if !nx.IsConst() && !ny.IsConst() {
		if len(nx.T) > len(ny.T) || (len(nx.T) == len(ny.T) && nx.Key() > ny.Key()) {
			x, y, nx, ny = y, x, ny, nx
		}
		for i, v := range []Lin{nx, ny} {
			if cs, ok := c.enumerate(st, v, 5); ok {
				o := y
				if i == 1 {
					o = x
				}
				var out []vs
				for _, cc := range cs {
					out = append(out, c.mulInt(cc.st, cc.v.(IntV).L, o, t)...)
				}
				return out
			}
		}
		w, signed := typeBits(t)
		key := fmt.Sprintf("mul|%s|%s", nx.Key(), ny.Key())
		// the exact product when it provably fits
		l1, h1, a1, b1 := st.num.interval(nx)
		l2, h2, a2, b2 := st.num.interval(ny)
		if a1 && b1 && a2 && b2 {
			var lo, hi int64
			ok := guard(func() {
				p := []int64{mulI(l1, l2), mulI(l1, h2), mulI(h1, l2), mulI(h1, h2)}
				lo, hi = p[0], p[0]
				for _, v := range p {
					lo, hi = min(lo, v), max(hi, v)
				}
			})
			if ok {
				s, _ := c.consSym(key, "mul", nil, nil)
				guard(func() { st.num.AssumeGe(S(s).SubK(lo)) })
				st.num.AssumeGe(K(hi).Sub(S(s)))
				if l1 >= 0 && l2 >= 1 {
					guard(func() { st.num.AssumeGe(S(s).Sub(nx.Mul(l2))) })
				}
				if l2 >= 0 && l1 >= 1 {
					guard(func() { st.num.AssumeGe(S(s).Sub(ny.Mul(l1))) })
				}
				if l1 >= 0 && l2 >= 0 {
					guard(func() { st.num.AssumeGe(ny.Mul(h1).Sub(S(s))) })
					guard(func() { st.num.AssumeGe(nx.Mul(h2).Sub(S(s))) })
				}
				return c.wrap(st, S(s), t, "mul")
			}
		}
		return []vs{{st, IntV{c.freshT(st, fmt.Sprintf("wmul%d%v|%s", w, signed, key), "mul", t)}}}
	}
	if nx.IsConst() {
		x, y, nx, ny = y, x, ny, nx
	}
	var p Lin
	if guard(func() { p = x.Mul(ny.K) }) {
		w, _ := typeBits(t)
		if w == 64 && !c.fits(st, p, w, false) && !c.fits(st, p, w, true) {
			_, signed := typeBits(t)
			if !c.fits(st, p, w, signed) {
				// split off the part that does not wrap
				ge, le := rangeLins(p, w, signed)
				var out []vs
				in := st.Clone()
				ok := true
				if ge != nil {
					ok = in.num.AssumeGe(*ge)
				}
				if ok && le != nil {
					ok = in.num.AssumeGe(*le)
				}
				if !signed && ok {
					// unsigned: in range means p <= 2^64-1, i.e. x <= (2^64-1)/k
					q := int64(uint64(math.MaxUint64) / uint64(ny.K))
					ok = in.num.AssumeGe(K(q).Sub(x))
				}
				if ok {
					out = append(out, vs{in, IntV{p}})
				}
				out = append(out, vs{st, IntV{c.freshT(st, fmt.Sprintf("wmul|%s", p.Key()), "mul~", t)}})
				return out
			}
		}
		return c.wrap(st, p, t, "mul")
	}
	return []vs{{st, IntV{c.freshT(st, fmt.Sprintf("wmul|%s|%d", x.Key(), ny.K), "mul", t)}}}
}

// divInt yields quotient and remainder (Go semantics); y != 0 is known.
func (c *Ctx) divInt(st *State, x, y Lin, t types.Type, rem bool) []vs {
	_, signed := typeBits(t)
	ny := st.num.Norm(y)
	if !ny.IsConst() {
		if cs, ok := c.enumerate(st, ny, 8); ok {
			var out []vs
			for _, cc := range cs {
				if cc.v.(IntV).L.K == 0 {
					continue
				}
				out = append(out, c.divInt(cc.st, x, cc.v.(IntV).L, t, rem)...)
			}
			return out
		}
		// symbolic divisor
		var out []vs
		if st.num.Entails(x) && st.num.Entails(ny.AddK(-1)) {
			// a known multiple
			nx := st.num.Norm(x)
			tried := map[int64]bool{}
			for _, t := range nx.T {
				k := t.C
				if cy := ny.Coef(t.S); cy > 0 {
					k /= cy
				}
				if k < 1 || k > 1<<20 || tried[k] || len(tried) > 4 {
					continue
				}
				tried[k] = true
				var r, over Lin
				if guard(func() { r = nx.Sub(ny.Mul(k)); over = ny.Sub(r).AddK(-1) }) && st.num.Entails(r) && st.num.Entails(over) {
					if rem {
						return []vs{{st, IntV{r}}}
					}
					return []vs{{st, IntV{K(k)}}}
				}
			}
			lt, ge := c.split(st, geB(ny.Sub(x).AddK(-1)))
			if lt != nil {
				if rem {
					out = append(out, vs{lt, IntV{x}})
				} else {
					out = append(out, vs{lt, IntV{K(0)}})
				}
			}
			if ge != nil {
				one, more := c.split(ge, geB(ny.Mul(2).Sub(x).AddK(-1)))
				if one != nil {
					if rem {
						out = append(out, vs{one, IntV{x.Sub(ny)}})
					} else {
						out = append(out, vs{one, IntV{K(1)}})
					}
				}
				if more != nil {
					nx := more.num.Norm(x)
					lo, hi := typeRange(t)
					op := "sdiv"
					if rem {
						op = "srem"
					}
					y, _ := c.consSym(fmt.Sprintf("%s|%s|%s", op, nx.Key(), ny.Key()), op, lo, hi)
					r := S(y)
					more.num.AssumeGe(r)
					if rem {
						more.num.AssumeGe(ny.AddK(-1).Sub(r))
					} else {
						more.num.AssumeGe(nx.Sub(r.Mul(2)))
						more.num.AssumeGe(r.AddK(-2))
					}
					out = append(out, vs{more, IntV{r}})
				}
			}
			return out
		}
		op := "sdiv"
		if rem {
			op = "srem"
		}
		return []vs{{st, IntV{c.freshT(st, fmt.Sprintf("%s|%s|%s", op, st.num.Norm(x).Key(), ny.Key()), op, t)}}}
	}
	d := ny.K
	if d == -1 || d == math.MinInt64 {
		if d == -1 && !rem {
			return c.wrap(st, x.Neg(), t, "neg")
		}
		if d == -1 {
			return []vs{{st, IntV{K(0)}}}
		}
		return []vs{{st, IntV{c.freshT(st, "divm|"+x.Key(), "div", t)}}}
	}
	nn, ng := st, (*State)(nil)
	if signed {
		nn, ng = c.split(st, geB(x))
	}
	var out []vs
	do := func(s *State, v Lin, sign int64) {
		ad := d
		qs := sign
		if d < 0 {
			ad, qs = -d, -sign
		}
		q := c.divFloor(s, v, ad)
		if rem {
			var r Lin
			if !guard(func() { r = v.Sub(q.Mul(ad)).Mul(sign) }) {
				r = c.freshT(s, fmt.Sprintf("rem|%s|%d", v.Key(), ad), "rem", t)
			}
			out = append(out, vs{s, IntV{r}})
		} else {
			out = append(out, vs{s, IntV{q.Mul(qs)}})
		}
	}
	if nn != nil {
		do(nn, x, 1)
	}
	if ng != nil {
		var nx Lin
		if guard(func() { nx = x.Neg() }) {
			do(ng, nx, -1)
		} else {
			out = append(out, vs{ng, IntV{c.freshT(ng, fmt.Sprintf("dv|%s|%d|%v", x.Key(), d, rem), "div", t)}})
		}
	}
	return out
}

func (c *Ctx) shift(st *State, x, n Lin, t types.Type, right bool) []vs {
	w, signed := typeBits(t)
	nn := st.num.Norm(n)
	if !nn.IsConst() {
		if x.IsConst() && x.K == 0 {
			return []vs{{st, IntV{K(0)}}}
		}
		if cs, ok := c.enumerate(st, nn, 72); ok {
			var out []vs
			for _, cc := range cs {
				out = append(out, c.shift(cc.st, x, cc.v.(IntV).L, t, right)...)
			}
			return out
		}
		op := "shl"
		if right {
			op = "shr"
		}
		r := c.freshT(st, fmt.Sprintf("%s%d%v|%s|%s", op, w, signed, x.Key(), nn.Key()), op, t)
		if right && st.num.Entails(x) {
			st.num.AssumeGe(r)
			st.num.AssumeGe(x.Sub(r))
		}
		return []vs{{st, IntV{r}}}
	}
	k := int64(64)
	if nn.K < 64 {
		k = nn.K
	}
	if k < 0 {
		return nil // reported elsewhere
	}
	if !right {
		if k >= int64(w) {
			return []vs{{st, IntV{K(0)}}}
		}
		if k == 0 {
			return []vs{{st, IntV{x}}}
		}
		var p Lin
		if k < 63 && guard(func() { p = x.Mul(pow2(int(k))) }) && c.fits(st, p, w, signed) {
			return []vs{{st, IntV{p}}}
		}
		b := c.bitsOf(st, x)
		var v BitVec
		copy(v[k:], b[:64-k])
		return []vs{{st, IntV{c.fromBits(st, &v, w, signed)}}}
	}
	if k >= int64(w) {
		if !signed {
			return []vs{{st, IntV{K(0)}}}
		}
		k = int64(w) - 1
	}
	if signed {
		if !st.num.Entails(x) {
			return []vs{{st, IntV{c.hi(st, x, int(k))}}}
		}
	}
	b := c.bitsOf(st, x)
	var v BitVec
	copy(v[:], b[k:])
	return []vs{{st, IntV{c.fromBits(st, &v, 64, false)}}}
}

func (c *Ctx) bitOp(st *State, op token.Token, x, y Lin, t types.Type) []vs {
	w, signed := typeBits(t)
	a, b := c.bitsOf(st, x), c.bitsOf(st, y)
	var v BitVec
	unk := 0
	for k := 0; k < w; k++ {
		p, q := a[k], b[k]
		if op == token.AND_NOT {
			q ^= 1
		}
		if p >= 2 && q >= 2 && p|1 != q|1 {
			unk++
		}
	}
	nonneg := !signed || (st.num.Entails(x) && st.num.Entails(y))
	if unk > 20 {
		lo, hi := typeRange(t)
		k1, k2 := st.num.Norm(x).Key(), st.num.Norm(y).Key()
		yv, _ := c.consSym(fmt.Sprintf("%v%d%v|%s|%s", op, w, signed, k1, k2), "bitop", lo, hi)
		r := S(yv)
		if nonneg {
			c.bitOpBounds(st, op, x, y, r)
		}
		return []vs{{st, IntV{r}}}
	}
	for k := 0; k < 64; k++ {
		switch op {
		case token.AND:
			v[k] = c.bitAnd(a[k], b[k])
		case token.AND_NOT:
			v[k] = c.bitAnd(a[k], b[k]^1)
		case token.OR:
			v[k] = c.bitAnd(a[k]^1, b[k]^1) ^ 1
		case token.XOR:
			v[k] = c.bitXor(a[k], b[k])
		}
	}
	r := c.fromBits(st, &v, w, signed)
	if unk > 0 && nonneg {
		c.bitOpBounds(st, op, x, y, r)
	}
	return []vs{{st, IntV{r}}}
}

func (c *Ctx) bitOpBounds(st *State, op token.Token, x, y, r Lin) {
	as := func(f func() Lin) {
		guard(func() { st.num.AssumeGe(f()) })
	}
	as(func() Lin { return r })
	switch op {
	case token.AND:
		as(func() Lin { return x.Sub(r) })
		as(func() Lin { return y.Sub(r) })
	case token.AND_NOT:
		as(func() Lin { return x.Sub(r) })
	case token.OR:
		as(func() Lin { return r.Sub(x) })
		as(func() Lin { return r.Sub(y) })
		as(func() Lin { return x.Add(y).Sub(r) })
	case token.XOR:
		as(func() Lin { return x.Add(y).Sub(r) })
	}
}

// ---- constants

func (c *Ctx) constVal(v constant.Value, t types.Type) Val {
	if v == nil {
		return c.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
				return IntV{K(i)}
			}
			// uint64 above MaxInt64
			y, _ := c.consSym("const|"+v.ExactString(), "big", ip(math.MaxInt64), nil)
			return IntV{S(y)}
		case u.Info()&types.IsBoolean != 0:
			return boolC(constant.BoolVal(v))
		case u.Info()&types.IsString != 0:
			return StrV{Const: true, S: constant.StringVal(v)}
		case u.Info()&types.IsFloat != 0:
			return FloatV{"c" + v.ExactString()}
		}
	case *types.Interface:
		// constant of interface type does not occur
	}
	return OpaqueV{0}
}

func strLen(v StrV) Lin {
	if v.Const {
		return K(int64(len(v.S)))
	}
	return v.Len
}
