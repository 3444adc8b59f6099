package main

// Facts: what the branch outcomes of a path tell about terms. A map of decided
// boolean atoms plus intervals and disequalities of linear forms.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

type ival struct{ lo, hi int64 }

const (
	negInf = math.MinInt64 / 4
	posInf = math.MaxInt64 / 4
)

type neKey struct {
	t *Term
	c int64
}

type Facts struct {
	b  map[*Term]bool
	iv map[*Term]ival
	ne map[neKey]bool
	// sums of unsigned numbers may wrap around to zero
	wrap bool
}

func newFacts() *Facts {
	return &Facts{b: map[*Term]bool{}, iv: map[*Term]ival{}, ne: map[neKey]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{wrap: f.wrap, b: make(map[*Term]bool, len(f.b)+1), iv: make(map[*Term]ival, len(f.iv)+1), ne: make(map[neKey]bool, len(f.ne))}
	for k, v := range f.b {
		g.b[k] = v
	}
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.ne {
		g.ne[k] = v
	}
	return g
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// split a normalised numeric term d into (L, sign, c): d = sign*L + c with
// the first coefficient of L positive
func splitLin(d *Term) (L *Term, sign int64, c int64) {
	l, c := lin(d)
	if len(l) == 0 {
		return nil, 1, c
	}
	sign = 1
	if l[0].k < 0 {
		sign = -1
	}
	out := make([]linT, len(l))
	for i, x := range l {
		out[i] = linT{x.t, x.k * sign}
	}
	return mkLin(out, 0, d.T), sign, c
}

func atomNonNeg(t *Term) bool {
	switch t.Op {
	case "len", "cap":
		return true
	}
	return isUnsigned(t.T)
}

// bounds of a linear form L (no constant)
func (f *Facts) bounds(L *Term) ival {
	r := ival{negInf, posInf}
	if v, ok := f.iv[L]; ok {
		r = v
	}
	// combine bounds of the parts
	l, c := lin(L)
	if len(l) >= 1 {
		s := ival{c, c}
		for _, x := range l {
			a := ival{negInf, posInf}
			if atomNonNeg(x.t) {
				a.lo = 0
			}
			if isUint8(x.t.T) && x.t.Op != "aff" {
				a.hi = 255
			}
			if v, ok := f.iv[x.t]; ok {
				if v.lo > a.lo {
					a.lo = v.lo
				}
				if v.hi < a.hi {
					a.hi = v.hi
				}
			}
			if x.t.Op == "bin" && x.t.Aux == "%" && len(x.t.Args) == 2 && x.t.Args[1].Op == "int" && x.t.Args[1].C > 0 {
				if a.hi > x.t.Args[1].C-1 {
					a.hi = x.t.Args[1].C - 1
				}
			}
			lo, hi := mulB(a.lo, x.k), mulB(a.hi, x.k)
			if x.k < 0 {
				lo, hi = hi, lo
			}
			s.lo, s.hi = addB(s.lo, lo), addB(s.hi, hi)
		}
		if s.lo > r.lo {
			r.lo = s.lo
		}
		if s.hi < r.hi {
			r.hi = s.hi
		}
	}
	return r
}

func mulB(a, k int64) int64 {
	if a <= negInf || a >= posInf {
		if (a < 0) == (k < 0) {
			return posInf
		}
		return negInf
	}
	if a > 1<<40 || a < -(1<<40) || k > 1<<20 || k < -(1<<20) {
		if (a < 0) == (k < 0) {
			return posInf
		}
		return negInf
	}
	return a * k
}

func addB(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	return a + b
}

func (f *Facts) Truth(t *Term) tri {
	switch t.Op {
	case "bool":
		return triOf(t == tTrue)
	case "not":
		return f.Truth(t.Args[0]).not()
	}
	if v, ok := f.b[t]; ok {
		return triOf(v)
	}
	switch t.Op {
	case "le0":
		L, s, c := splitLin(t.Args[0])
		b := f.bounds(L)
		// s*L + c <= 0
		if s > 0 { // L <= -c
			if b.hi < posInf && b.hi <= -c {
				return yes
			}
			if b.lo > negInf && b.lo > -c {
				return no
			}
			// disequality sharpening
			if b.hi < posInf && b.hi == -c+1 && f.ne[neKey{L, b.hi}] {
				return yes
			}
		} else { // L >= c
			if b.lo > negInf && b.lo >= c {
				return yes
			}
			if b.hi < posInf && b.hi < c {
				return no
			}
			if b.lo > negInf && b.lo == c-1 && f.ne[neKey{L, b.lo}] {
				return yes
			}
		}
	case "eq0":
		if f.wrap && wraps(t.Args[0]) {
			return unknown
		}
		L, s, c := splitLin(t.Args[0])
		v := -c * s // L == v
		b := f.bounds(L)
		if b.lo == v && b.hi == v {
			return yes
		}
		if b.lo > v || b.hi < v || f.ne[neKey{L, v}] {
			return no
		}
	case "eq":
		a, b := t.Args[0], t.Args[1]
		if b == tNil || a == tNil {
			x := a
			if a == tNil {
				x = b
			}
			if nonNil(x) {
				return no
			}
		}
		// x==r known for a rigid r' distinct
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			x, r := p[0], p[1]
			if !isRigid(r) {
				continue
			}
			for k, v := range f.b {
				if v && k.Op == "eq" {
					o := (*Term)(nil)
					if k.Args[0] == x {
						o = k.Args[1]
					} else if k.Args[1] == x {
						o = k.Args[0]
					}
					if o != nil && o != r && rigidDistinct(o, r) {
						return no
					}
				}
			}
		}
	}
	return unknown
}

// Assume returns new facts or nil if contradictory
func (f *Facts) Assume(t *Term, v bool) *Facts {
	if t.Op == "not" {
		return f.Assume(t.Args[0], !v)
	}
	if r := f.Truth(t); r != unknown {
		if (r == yes) == v {
			return f
		}
		return nil
	}
	g := f.clone()
	g.b[t] = v
	if f.wrap && t.Op == "eq0" && wraps(t.Args[0]) {
		return g
	}
	switch t.Op {
	case "le0":
		L, s, c := splitLin(t.Args[0])
		iv, ok := g.iv[L]
		if !ok {
			iv = ival{negInf, posInf}
		}
		if s > 0 {
			if v { // L <= -c
				if -c < iv.hi {
					iv.hi = -c
				}
			} else { // L > -c
				if -c+1 > iv.lo {
					iv.lo = -c + 1
				}
			}
		} else {
			if v { // L >= c
				if c > iv.lo {
					iv.lo = c
				}
			} else if c-1 < iv.hi {
				iv.hi = c - 1
			}
		}
		for g.ne[neKey{L, iv.lo}] {
			iv.lo++
		}
		for g.ne[neKey{L, iv.hi}] {
			iv.hi--
		}
		if iv.lo > iv.hi {
			return nil
		}
		g.iv[L] = iv
	case "eq0":
		L, s, c := splitLin(t.Args[0])
		x := -c * s
		if v {
			g.iv[L] = ival{x, x}
		} else {
			g.ne[neKey{L, x}] = true
			iv, ok := g.iv[L]
			if !ok {
				iv = f.bounds(L)
			}
			if iv.lo == x && iv.lo > negInf {
				iv.lo++
			}
			if iv.hi == x && iv.hi < posInf {
				iv.hi--
			}
			if iv.lo > iv.hi {
				return nil
			}
			if iv.lo > negInf || iv.hi < posInf {
				g.iv[L] = iv
			}
		}
	case "eq":
		// string equality with the empty string and len are not connected
	}
	return g
}

// intersect keeps what both know
func (f *Facts) intersect(g *Facts) *Facts {
	if f == g {
		return f
	}
	r := newFacts()
	r.wrap = f.wrap
	for k, v := range f.b {
		if w, ok := g.b[k]; ok && w == v {
			r.b[k] = v
		}
	}
	for k, v := range f.iv {
		if w, ok := g.iv[k]; ok {
			if w.lo < v.lo {
				v.lo = w.lo
			}
			if w.hi > v.hi {
				v.hi = w.hi
			}
			if v.lo > negInf || v.hi < posInf {
				r.iv[k] = v
			}
		}
	}
	for k := range f.ne {
		if g.ne[k] || g.iv[k.t] != (ival{}) && (g.iv[k.t].lo > k.c || g.iv[k.t].hi < k.c) {
			r.ne[k] = true
		}
	}
	for k := range g.ne {
		if iv, ok := f.iv[k.t]; ok && (iv.lo > k.c || iv.hi < k.c) {
			r.ne[k] = true
		}
	}
	return r
}

// drop forgets everything about terms for which bad is true
func (f *Facts) drop(bad func(*Term) bool) *Facts {
	r := newFacts()
	r.wrap = f.wrap
	memo := map[*Term]bool{}
	chk := func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		v := t.any(bad)
		memo[t] = v
		return v
	}
	for k, v := range f.b {
		if !chk(k) {
			r.b[k] = v
		}
	}
	for k, v := range f.iv {
		if !chk(k) {
			r.iv[k] = v
		}
	}
	for k := range f.ne {
		if !chk(k.t) {
			r.ne[k] = true
		}
	}
	return r
}

func (f *Facts) key() string {
	var ks []string
	for k, v := range f.b {
		s := strconv.Itoa(k.ID)
		if v {
			s += "+"
		} else {
			s += "-"
		}
		ks = append(ks, s)
	}
	for k, v := range f.iv {
		ks = append(ks, fmt.Sprintf("%d:%v", k.ID, v))
	}
	for k := range f.ne {
		ks = append(ks, fmt.Sprintf("%d/%d", k.t.ID, k.c))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (f *Facts) String() string {
	var ks []string
	for k, v := range f.b {
		s := k.String()
		if !v {
			s = "!(" + s + ")"
		}
		ks = append(ks, s)
	}
	sort.Strings(ks)
	return strings.Join(ks, " & ")
}

// wraps: an unsigned number plus a positive constant
func wraps(t *Term) bool {
	return t.Op == "aff" && len(t.Lin) == 1 && t.Lin[0].k == 1 && t.C > 0 && isUnsigned(t.Lin[0].t.T)
}
