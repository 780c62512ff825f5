package main

// The simplex method on machine-size rationals; a computation that overflows is repeated on big ones.

import "math/bits"

type rat struct{ n, d int64 }

type ratOverflow struct{}

var lpBuf []rat

func ri(n int64) rat { return rat{n, 1} }

func mulC(a, b int64) int64 {
	if a == 1 {
		return b
	}
	if b == 1 {
		return a
	}
	const h = 1 << 31
	if a < h && a > -h && b < h && b > -h {
		return a * b
	}
	x, y := uint64(a), uint64(b)
	neg := false
	if a < 0 {
		x, neg = -x, !neg
	}
	if b < 0 {
		y, neg = -y, !neg
	}
	hi, lo := bits.Mul64(x, y)
	if hi != 0 || lo >= 1<<63 {
		panic(ratOverflow{})
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func addC(a, b int64) int64 {
	c := a + b
	if (c > a) != (b > 0) && b != 0 {
		panic(ratOverflow{})
	}
	return c
}

func ratNorm(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	if d != 1 {
		if g := gcdI(n, d); g != 1 {
			n /= g
			d /= g
		}
	}
	return rat{n, d}
}

func (a rat) sign() int {
	if a.n > 0 {
		return 1
	} else if a.n < 0 {
		return -1
	}
	return 0
}

func (a rat) add(b rat) rat {
	if a.d == b.d {
		if a.d == 1 {
			return rat{addC(a.n, b.n), 1}
		}
		return ratNorm(addC(a.n, b.n), a.d)
	}
	return ratNorm(addC(mulC(a.n, b.d), mulC(b.n, a.d)), mulC(a.d, b.d))
}

func (a rat) neg() rat      { return rat{-a.n, a.d} }
func (a rat) sub(b rat) rat { return a.add(rat{-b.n, b.d}) }

func (a rat) mul(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{mulC(a.n, b.n), 1}
	}
	if a.d != 1 {
		if g := gcdI(b.n, a.d); g > 1 {
			b.n /= g
			a.d /= g
		}
	}
	if b.d != 1 {
		if g := gcdI(a.n, b.d); g > 1 {
			a.n /= g
			b.d /= g
		}
	}
	return ratNorm(mulC(a.n, b.n), mulC(a.d, b.d))
}

func (a rat) inv() rat {
	if a.n > 0 {
		return rat{a.d, a.n}
	}
	return rat{-a.d, -a.n}
}

func (a rat) cmp(b rat) int { return a.sub(b).sign() }

var lpSlow int

func lpMin(cons []Lin, e Lin, stop *Q) (v Q, st lpStatus) {
	ok := false
	func() {
		defer func() {
			if !ok {
				if r := recover(); r != nil {
					if _, is := r.(ratOverflow); !is {
						panic(r)
					}
				}
			}
		}()
		var s *rat
		if stop != nil {
			s = &rat{stop.n, stop.d}
		}
		var q rat
		q, st = lpFast(cons, e, s)
		v = Q{q.n, q.d, nil}
		ok = true
	}()
	if !ok {
		lpSlow++
		return lpBig(cons, e, stop)
	}
	return
}

func lpFast(cons []Lin, e Lin, stop *rat) (rat, lpStatus) {
	if len(e.T) == 0 {
		return ri(e.K), lpOK
	}
	rowOf := map[Sym]int{}
	var syms []Sym
	row := func(s Sym) int {
		r, ok := rowOf[s]
		if !ok {
			r = len(syms)
			rowOf[s] = r
			syms = append(syms, s)
		}
		return r
	}
	for _, t := range e.T {
		row(t.S)
	}
	for _, c := range cons {
		for _, t := range c.T {
			row(t.S)
		}
	}
	m, n := len(syms), len(cons)
	// rows: sum_i lambda_i a_iv = e_v, artificials implicit as the initial basis
	w := n + 1
	tab := make([][]rat, m)
	if need := (m + 2) * w; cap(lpBuf) < need {
		lpBuf = make([]rat, 2*need)
	}
	store := lpBuf[:(m+2)*w]
	for i := range store {
		store[i] = rat{0, 1}
	}
	for r := range tab {
		tab[r] = store[r*w : (r+1)*w]
	}
	for i, c := range cons {
		for _, t := range c.T {
			tab[rowOf[t.S]][i] = ri(t.C)
		}
	}
	for _, t := range e.T {
		tab[rowOf[t.S]][n] = ri(t.C)
	}
	basis := make([]int, m)
	obj := store[m*w : (m+1)*w] // phase 1: minimise sum of artificials; reduced costs = -sum rows
	for i := range obj {
		obj[i] = ri(0)
	}
	for r := range tab {
		basis[r] = -1
		if tab[r][n].sign() < 0 {
			for j := range tab[r] {
				if tab[r][j].sign() != 0 {
					tab[r][j] = tab[r][j].neg()
				}
			}
		}
		for j := range obj {
			if tab[r][j].sign() != 0 {
				obj[j] = obj[j].sub(tab[r][j])
			}
		}
	}
	pivot := func(pr, pc int, objs ...[]rat) {
		p := tab[pr]
		iv := p[pc].inv()
		if !(iv.n == 1 && iv.d == 1) {
			for j := range p {
				if p[j].sign() != 0 {
					p[j] = p[j].mul(iv)
				}
			}
		}
		elim := func(t []rat) {
			f := t[pc]
			if f.sign() == 0 {
				return
			}
			for j := range t {
				if p[j].sign() != 0 {
					t[j] = t[j].sub(f.mul(p[j]))
				}
			}
		}
		for r := range tab {
			if r != pr {
				elim(tab[r])
			}
		}
		for _, o := range objs {
			elim(o)
		}
		basis[pr] = pc
	}
	choose := func(o []rat, iter int) int {
		best := -1
		for j := 0; j < n; j++ {
			if o[j].sign() < 0 {
				if iter > 60 {
					return j
				}
				if best < 0 || o[j].cmp(o[best]) < 0 {
					best = j
				}
			}
		}
		return best
	}
	ratio := func(pc int) int {
		pr := -1
		var br rat
		for r := range tab {
			if tab[r][pc].sign() > 0 {
				q := tab[r][n].mul(tab[r][pc].inv())
				if pr < 0 {
					pr, br = r, q
					continue
				}
				if c := q.cmp(br); c < 0 || (c == 0 && basis[r] < basis[pr]) {
					pr, br = r, q
				}
			}
		}
		return pr
	}
	for iter := 0; ; iter++ {
		if obj[n].sign() == 0 {
			break
		}
		pc := choose(obj, iter)
		if pc < 0 {
			return rat{0, 1}, lpUnbounded
		}
		pr := ratio(pc)
		if pr < 0 {
			return rat{0, 1}, lpUnbounded // cannot happen in phase 1
		}
		pivot(pr, pc, obj)
		if iter > 3000 {
			return rat{0, 1}, lpUnbounded
		}
	}
	// drive artificials out of the basis (all at zero)
	for r := range tab {
		if basis[r] >= 0 {
			continue
		}
		for j := 0; j < n; j++ {
			if tab[r][j].sign() != 0 {
				pivot(r, j)
				break
			}
		}
		// a row of zeros is redundant
	}
	// phase 2: minimise sum lambda_i c_i; value = e.K - that
	o2 := store[(m+1)*w : (m+2)*w]
	for i := range o2 {
		o2[i] = ri(0)
	}
	for i, c := range cons {
		o2[i] = ri(c.K)
	}
	for r := range tab {
		if basis[r] < 0 {
			continue
		}
		f := o2[basis[r]]
		if f.sign() == 0 {
			continue
		}
		for j := range o2 {
			if tab[r][j].sign() != 0 {
				o2[j] = o2[j].sub(f.mul(tab[r][j]))
			}
		}
	}
	for iter := 0; ; iter++ {
		// current objective: -o2[n]; value = e.K + o2[n]
		if stop != nil {
			if v := ri(e.K).add(o2[n]); v.cmp(*stop) > 0 {
				return v, lpOK
			}
		}
		pc := choose(o2, iter)
		if pc < 0 {
			return ri(e.K).add(o2[n]), lpOK
		}
		pr := ratio(pc)
		if pr < 0 {
			return rat{0, 1}, lpInfeasible
		}
		pivot(pr, pc, o2)
		if iter > 3000 {
			return ri(e.K).add(o2[n]), lpOK // a valid lower bound
		}
	}
}
