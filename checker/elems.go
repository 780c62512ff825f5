package main

// Elements of unknown arrays across joins: what is known of a[i] on either side is kept when the
// positions correspond to one expression of the joined state.

import (
	"fmt"
	"sort"
)

const maxElems = 10

// known are the elements of live contents that a store says something about.
func (j *joiner) known(n *Num, ids map[int]bool) []Sym {
	var out []Sym
	seen := map[Sym]bool{}
	add := func(s Sym) {
		if seen[s] {
			return
		}
		seen[s] = true
		r, ok := j.e.elemOf[s]
		if !ok || !ids[r.id] {
			return
		}
		if d, ok := n.eqs[s]; ok && len(d.T) > 0 {
			return
		}
		out = append(out, s)
	}
	for s := range n.bounds {
		add(s)
	}
	for s := range n.eqs {
		add(s)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

func contentIDs(c *Content, ids map[int]bool) {
	ids[c.ID] = true
	for _, w := range c.W {
		if w.Src != nil {
			contentIDs(w.Src, ids)
		}
	}
}

func (j *joiner) elements() {
	if !j.e.apart {
		return
	}
	ids := map[int]bool{}
	for _, o := range j.R.heap {
		if a, ok := o.Val.(ArrV); ok && a.C != nil {
			if _, _, ok := intInfo(a.Elem); ok {
				contentIDs(a.C, ids)
			}
		}
	}
	if len(ids) == 0 {
		return
	}
	A, B := j.A.num, j.B.num
	ka := j.known(A, ids)
	if len(ka) == 0 {
		return
	}
	kb := ka
	if j.A != j.B {
		kb = j.known(B, ids)
	}
	// the ways in which a position can change: not, or like one or two joined values
	type shift struct {
		d   Lin // on side A minus on side B
		a   Lin // on side A
		phi Lin
	}
	shifts := []shift{{}}
	if j.A != j.B {
		np := len(j.phiS)
		if np > 12 {
			np = 12
		}
		for i := 0; i < np; i++ {
			shifts = append(shifts, shift{j.phiA[i].Sub(j.phiB[i]), j.phiA[i], S(j.phiS[i])})
		}
		for i := 0; i < np; i++ {
			for k := i + 1; k < np; k++ {
				d := j.phiA[i].Sub(j.phiB[i]).Add(j.phiA[k].Sub(j.phiB[k]))
				shifts = append(shifts, shift{d, j.phiA[i].Add(j.phiA[k]), S(j.phiS[i]).Add(S(j.phiS[k]))})
			}
		}
	}
	allLive := func(l Lin) bool {
		for _, t := range l.T {
			if !j.live[t.S] {
				return false
			}
		}
		return true
	}

	done := map[string]bool{}
	count := 0
	matched := map[Sym]bool{}
	for _, ya := range ka {
		ra := j.e.elemOf[ya]
		la := A.Norm(ra.off)
		for _, yb := range kb {
			if j.A == j.B && ya != yb {
				continue
			}
			rb := j.e.elemOf[yb]
			if rb.id != ra.id || count >= maxElems {
				continue
			}
			base, d := la, Lin{}
			if j.A != j.B {
				d = la.Sub(B.Norm(rb.off))
				if raw := ra.off.Sub(rb.off); len(raw.T) == 0 && raw.K == 0 && allLive(ra.off) {
					base, d = ra.off, raw
				}
			}
			for _, sh := range shifts {
				if !d.Eq(sh.d) {
					continue
				}
				rest := base.Sub(sh.a)
				if !allLive(rest) {
					continue
				}
				matched[ya] = true
				if ca, ok := A.eqs[ya]; ok && j.apart {
					if cb, ok := B.eqs[yb]; ok && ca.K != cb.K {
						j.bad("elements differ")
						return
					}
				}
				off := rest.Add(sh.phi)
				key := fmt.Sprintf("e|%d|%s", ra.id, off.Key())
				if done[key] {
					continue
				}
				done[key] = true
				count++
				if len(sh.phi.T) == 0 && ya == yb {
					j.live[ya] = true
					continue
				}
				r := symRanges[ya]
				z, isNew := j.e.consSym(key, fmt.Sprintf("e%d[%s]", ra.id, off.Str(j.e.name)), ip(r.lo), ip(r.hi))
				if isNew {
					j.e.elemOf[z] = elemRef{ra.id, off}
					j.e.elemsOf[ra.id] = append(j.e.elemsOf[ra.id], z)
				}
				if z == ya || z == yb {
					j.live[z] = true
					if z == ya && z != yb {
						B.AssumeEq(S(z).Sub(S(yb)))
					} else if z == yb && z != ya {
						A.AssumeEq(S(z).Sub(S(ya)))
					}
					continue
				}
				j.live[z] = true
				j.phiS = append(j.phiS, z)
				j.phiA = append(j.phiA, S(ya))
				j.phiB = append(j.phiB, S(yb))
			}
		}
	}
	for _, ya := range ka {
		if !matched[ya] && allLive(A.Norm(j.e.elemOf[ya].off)) {
			j.changed = true
		}
	}
}

// congruent equates the known elements that have come to lie at one position; it returns false when
// they contradict each other.
func (e *Eng) congruent(n *Num) bool {
	if !e.apart {
		return true
	}
	var ks []Sym
	for s := range n.bounds {
		if _, ok := e.elemOf[s]; ok {
			ks = append(ks, s)
		}
	}
	for s := range n.eqs {
		if _, ok := e.elemOf[s]; ok {
			ks = append(ks, s)
		}
	}
	if len(ks) < 2 {
		return true
	}
	sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
	at := map[string]Sym{}
	for _, y := range ks {
		r := e.elemOf[y]
		key := fmt.Sprintf("%d|%s", r.id, n.Norm(r.off).Key())
		if x, ok := at[key]; ok {
			if x != y && !n.AssumeEq(S(x).Sub(S(y))) {
				return false
			}
			continue
		}
		at[key] = y
	}
	return true
}
