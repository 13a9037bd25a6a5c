//go:build verifsym

package vf

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type kind uint8

const (
	kConst kind = iota
	kVar
	kLin
	kMul
	kDiv
	kIte
	kRnd // a/b to the nearest, ties to even (a >= 0, b a positive constant)
)

type mono struct {
	c *big.Int
	t *Term
}

// Term is a hash-consed integer term. kLin is a canonical linear sum
// c + Σ coef·atom over non-linear-sum atoms ordered by id.
type Term struct {
	id   int
	w    *Worker
	k    kind
	c    *big.Int
	ms   []mono
	a, b *Term
	cond *Form
	name string
	// static interval, nil = unbounded
	lo, hi *big.Int
	// the sum without its constant, normalised (gcd 1, leading coefficient > 0): t = c + g·base
	base *Term
	g    *big.Int
	h    uint64 // structural hash, independent of the worker
}

type fkind uint8

const (
	fTrue fkind = iota
	fFalse
	fLe // L <= k
	fGe // L >= k
	fEq // L == k
	fNe
	fAnd
	fOr
)

// Form is a hash-consed formula.
type Form struct {
	id   int
	h    uint64
	k    fkind
	l    *Term // constant-free, normalised
	n    *big.Int
	subs []*Form
	neg  *Form
	divs []*Term // symbolic divisions below, when collected
	coll bool
	// the same fact read as a bound of a quotient
}

type qfact struct {
	t *Term
	k fkind
	n *big.Int
}

var (
	bz   = big.NewInt(0)
	b1   = big.NewInt(1)
	bTwo = big.NewInt(2)
)

func (w *Worker) intern(key string, mk func() *Term) *Term {
	if t, ok := w.terms[key]; ok {
		return t
	}
	t := mk()
	t.w = w
	t.h = t.hash()
	t.id = len(w.byID)
	w.byID = append(w.byID, t)
	w.terms[key] = t
	return t
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 + b
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h, uint64(len(s)))
}

func hbig(b *big.Int) uint64 {
	if b == nil {
		return 77
	}
	return hstr(b.Text(36))
}

func (t *Term) hash() uint64 {
	h := uint64(t.k) + 1
	switch t.k {
	case kConst:
		return mix(h, hbig(t.c))
	case kVar:
		return mix(mix(mix(h, hstr(t.name)), hbig(t.lo)), hbig(t.hi))
	case kLin:
		h = mix(h, hbig(t.c))
		for _, m := range t.ms {
			h = mix(mix(h, hbig(m.c)), m.t.h)
		}
		return h
	case kIte:
		return mix(mix(mix(h, t.cond.h), t.a.h), t.b.h)
	}
	return mix(mix(h, t.a.h), t.b.h)
}

func (t *Term) before(o *Term) bool {
	if t.h != o.h {
		return t.h < o.h
	}
	return t.id < o.id
}

func (f *Form) hash() uint64 {
	h := uint64(f.k) + 101
	if f.l != nil {
		return mix(mix(h, f.l.h), hbig(f.n))
	}
	for _, s := range f.subs {
		h = mix(h, s.h)
	}
	return h
}

func (w *Worker) konst(c *big.Int) *Term {
	return w.intern("c"+c.Text(36), func() *Term {
		v := new(big.Int).Set(c)
		return &Term{k: kConst, c: v, lo: v, hi: v}
	})
}

func (w *Worker) variable(name string, lo, hi *big.Int) *Term {
	return w.intern("v"+name+"|"+bstr(lo)+"|"+bstr(hi), func() *Term {
		return &Term{k: kVar, name: name, lo: lo, hi: hi}
	})
}

func bstr(b *big.Int) string {
	if b == nil {
		return "~"
	}
	return b.Text(36)
}

// lin builds the canonical sum.
func (w *Worker) lin(c *big.Int, ms []mono) *Term {
	if len(ms) == 0 {
		return w.konst(c)
	}
	if len(ms) == 1 && c.Sign() == 0 && ms[0].c.Cmp(b1) == 0 {
		return ms[0].t
	}
	var sb strings.Builder
	sb.WriteByte('l')
	sb.WriteString(c.Text(36))
	for _, m := range ms {
		sb.WriteByte(';')
		sb.WriteString(m.c.Text(36))
		sb.WriteByte('*')
		sb.WriteString(strconv.Itoa(m.t.id))
	}
	return w.intern(sb.String(), func() *Term {
		t := &Term{k: kLin, c: new(big.Int).Set(c), ms: ms}
		t.lo, t.hi = new(big.Int).Set(c), new(big.Int).Set(c)
		for _, m := range ms {
			lo, hi := m.t.lo, m.t.hi
			if m.c.Sign() < 0 {
				lo, hi = hi, lo
			}
			t.lo = addB(t.lo, mulB(lo, m.c))
			t.hi = addB(t.hi, mulB(hi, m.c))
		}
		return t
	})
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func mulB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Mul(a, b)
}

func (t *Term) parts() (*big.Int, []mono) {
	switch t.k {
	case kConst:
		return t.c, nil
	case kLin:
		return t.c, t.ms
	}
	return bz, []mono{{b1, t}}
}

// addScaled returns x + s·y.
func (w *Worker) addScaled(x, y *Term, s *big.Int) *Term {
	cx, mx := x.parts()
	cy, my := y.parts()
	c := new(big.Int).Add(cx, new(big.Int).Mul(cy, s))
	out := make([]mono, 0, len(mx)+len(my))
	i, j := 0, 0
	for i < len(mx) || j < len(my) {
		switch {
		case j >= len(my) || (i < len(mx) && mx[i].t.before(my[j].t)):
			out = append(out, mx[i])
			i++
		case i >= len(mx) || my[j].t.before(mx[i].t):
			out = append(out, mono{new(big.Int).Mul(my[j].c, s), my[j].t})
			j++
		default:
			k := new(big.Int).Mul(my[j].c, s)
			k.Add(k, mx[i].c)
			if k.Sign() != 0 {
				out = append(out, mono{k, mx[i].t})
			}
			i++
			j++
		}
	}
	if s.Sign() == 0 {
		return x
	}
	return w.lin(c, out)
}

func (w *Worker) scale(x *Term, s *big.Int) *Term {
	if s.Sign() == 0 {
		return w.konst(bz)
	}
	return w.addScaled(w.konst(bz), x, s)
}
func (w *Worker) add(x, y *Term) *Term { return w.addScaled(x, y, b1) }
func (w *Worker) sub(x, y *Term) *Term { return w.addScaled(x, y, big.NewInt(-1)) }

func (w *Worker) mul(x, y *Term) *Term {
	if x.k == kConst {
		return w.scale(y, x.c)
	}
	if y.k == kConst {
		return w.scale(x, y.c)
	}
	cx, mx := x.parts()
	cy, my := y.parts()
	if len(mx) <= 4 && len(my) <= 4 {
		r := w.konst(new(big.Int).Mul(cx, cy))
		for _, a := range mx {
			r = w.addScaled(r, a.t, new(big.Int).Mul(a.c, cy))
			for _, b := range my {
				r = w.addScaled(r, w.mulAtom(a.t, b.t), new(big.Int).Mul(a.c, b.c))
			}
		}
		for _, b := range my {
			r = w.addScaled(r, b.t, new(big.Int).Mul(b.c, cx))
		}
		return r
	}
	return w.mulAtom(x, y)
}

func (w *Worker) mulAtom(x, y *Term) *Term {
	if y.before(x) {
		x, y = y, x
	}
	return w.intern("m"+strconv.Itoa(x.id)+"*"+strconv.Itoa(y.id), func() *Term {
		t := &Term{k: kMul, a: x, b: y}
		if x.lo != nil && x.hi != nil && y.lo != nil && y.hi != nil {
			for _, p := range [][2]*big.Int{{x.lo, y.lo}, {x.lo, y.hi}, {x.hi, y.lo}, {x.hi, y.hi}} {
				v := new(big.Int).Mul(p[0], p[1])
				if t.lo == nil || v.Cmp(t.lo) < 0 {
					t.lo = v
				}
				if t.hi == nil || v.Cmp(t.hi) > 0 {
					t.hi = v
				}
			}
			if x == y && t.lo.Sign() < 0 {
				t.lo = bz
			}
		} else if x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
			t.lo = new(big.Int).Mul(x.lo, y.lo)
		}
		return t
	})
}

// divK is the floor division by a positive constant.
func (w *Worker) divK(x *Term, m *big.Int) *Term {
	if m.Cmp(b1) == 0 {
		return x
	}
	if x.k == kConst {
		return w.konst(new(big.Int).Div(x.c, m))
	}
	// pull out the part divisible by m
	c, ms := x.parts()
	var in, out []mono
	g := new(big.Int).Set(m)
	for _, q := range ms {
		qq, rr := new(big.Int).DivMod(q.c, m, new(big.Int))
		if rr.Sign() == 0 {
			out = append(out, mono{qq, q.t})
		} else {
			in = append(in, q)
			g.GCD(nil, nil, g, new(big.Int).Abs(q.c))
		}
	}
	oc, ic := new(big.Int).DivMod(c, m, new(big.Int))
	if len(in) == 0 {
		return w.lin(oc, out)
	}
	d := m
	if g.Cmp(b1) > 0 {
		// floor((g·y + ic)/m) = floor((y + floor(ic/g)) / (m/g))
		for i := range in {
			in[i] = mono{new(big.Int).Quo(in[i].c, g), in[i].t}
		}
		ic = new(big.Int).Div(ic, g)
		d = new(big.Int).Quo(m, g)
	}
	inner := w.lin(ic, in)
	var q *Term
	if inner.k == kDiv && inner.b.k == kConst {
		// floor(floor(a/n)/d) = floor(a/(n·d))
		q = w.divK(inner.a, new(big.Int).Mul(inner.b.c, d))
	} else if inner.k == kDiv {
		// floor(floor(a/b)/d) = floor(a/(b·d))
		q = w.divPos(inner.a, w.scale(inner.b, d))
	} else if lo, hi := inner.lo, inner.hi; lo != nil && hi != nil && new(big.Int).Div(lo, d).Cmp(new(big.Int).Div(hi, d)) == 0 {
		q = w.konst(new(big.Int).Div(lo, d))
	} else {
		q = w.divAtom(inner, w.konst(d))
	}
	return w.add(w.lin(oc, out), q)
}

func (w *Worker) divAtom(x, d *Term) *Term {
	return w.intern("d"+strconv.Itoa(x.id)+"/"+strconv.Itoa(d.id), func() *Term {
		t := &Term{k: kDiv, a: x, b: d}
		if d.k == kConst {
			if x.lo != nil {
				t.lo = new(big.Int).Div(x.lo, d.c)
			}
			if x.hi != nil {
				t.hi = new(big.Int).Div(x.hi, d.c)
			}
		} else if x.lo != nil && x.lo.Sign() >= 0 && d.lo != nil && d.lo.Sign() > 0 {
			t.lo = bz
			if d.hi != nil {
				t.lo = new(big.Int).Div(x.lo, d.hi)
			}
			if x.hi != nil {
				t.hi = new(big.Int).Div(x.hi, d.lo)
			}
			if k := w.ratioBound(x, d); k != nil && (t.hi == nil || k.Cmp(t.hi) < 0) {
				t.hi = k
			}
		}
		return t
	})
}

// ratioBound finds k with x <= k·d from the coefficients of shared atoms.
func (w *Worker) ratioBound(x, d *Term) *big.Int {
	_, mx := x.parts()
	_, md := d.parts()
	for _, a := range mx {
		for _, b := range md {
			if a.t == b.t && a.c.Sign() > 0 && b.c.Sign() > 0 {
				k := ceilDiv(a.c, b.c)
				if g := w.addScaled(w.scale(d, k), x, big.NewInt(-1)); g.lo != nil && g.lo.Sign() >= 0 {
					return k
				}
			}
		}
	}
	return nil
}

func (w *Worker) modK(x *Term, m *big.Int) *Term {
	return w.addScaled(x, w.divK(x, m), new(big.Int).Neg(m))
}

func (w *Worker) ite(c *Form, a, b *Term) *Term {
	if c.k == fTrue || a == b {
		return a
	}
	if c.k == fFalse {
		return b
	}
	return w.intern("i"+strconv.Itoa(c.id)+"?"+strconv.Itoa(a.id)+":"+strconv.Itoa(b.id), func() *Term {
		t := &Term{k: kIte, cond: c, a: a, b: b}
		if a.lo != nil && b.lo != nil {
			t.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxB(a.hi, b.hi)
		}
		return t
	})
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// norm splits t into c + g·base with base normalised.
func (w *Worker) norm(t *Term) (c, g *big.Int, base *Term) {
	if t.base == nil {
		cc, ms := t.parts()
		t.g = new(big.Int)
		for _, m := range ms {
			t.g.GCD(nil, nil, t.g, new(big.Int).Abs(m.c))
		}
		if ms[0].c.Sign() < 0 {
			t.g.Neg(t.g)
		}
		nm := make([]mono, len(ms))
		for i, m := range ms {
			nm[i] = mono{new(big.Int).Quo(m.c, t.g), m.t}
		}
		t.base = w.lin(bz, nm)
		_ = cc
	}
	cc, _ := t.parts()
	return cc, t.g, t.base
}

func (w *Worker) form(key string, mk func() *Form) *Form {
	if f, ok := w.forms[key]; ok {
		return f
	}
	f := mk()
	f.id = w.nform
	f.h = f.hash()
	w.nform++
	w.forms[key] = f
	return f
}

func (w *Worker) atom(k fkind, l *Term, n *big.Int) *Form {
	if f := w.quoAtom(k, l, n); f != nil {
		return f
	}
	// static interval
	lo, hi := l.lo, l.hi
	switch k {
	case fLe:
		if hi != nil && hi.Cmp(n) <= 0 {
			return w.tr
		}
		if lo != nil && lo.Cmp(n) > 0 {
			return w.fa
		}
	case fGe:
		if lo != nil && lo.Cmp(n) >= 0 {
			return w.tr
		}
		if hi != nil && hi.Cmp(n) < 0 {
			return w.fa
		}
	case fEq, fNe:
		if (lo != nil && lo.Cmp(n) > 0) || (hi != nil && hi.Cmp(n) < 0) {
			if k == fEq {
				return w.fa
			}
			return w.tr
		}
	}
	return w.form(strconv.Itoa(int(k))+"|"+strconv.Itoa(l.id)+"|"+n.Text(36), func() *Form {
		return &Form{k: k, l: l, n: new(big.Int).Set(n)}
	})
}

// quoAtom rewrites a comparison of a quotient with a constant into one of dividend and divisor.
func (w *Worker) quoAtom(k fkind, l *Term, n *big.Int) *Form {
	if l.k != kDiv && l.k != kRnd {
		return nil
	}
	// static interval first
	if (l.lo != nil && l.lo.Cmp(n) > 0) || (l.hi != nil && l.hi.Cmp(n) < 0) ||
		(k == fLe && l.hi != nil && l.hi.Cmp(n) <= 0) || (k == fGe && l.lo != nil && l.lo.Cmp(n) >= 0) {
		return nil
	}
	le := func(n *big.Int) *Form { // l <= n
		var f *Form
		if l.k == kDiv {
			f = w.lt(l.a, w.mul(w.konst(new(big.Int).Add(n, b1)), l.b))
		} else {
			d := l.b.c
			x := new(big.Int).Mul(n, d)
			x.Add(x, new(big.Int).Rsh(d, 1))
			if d.Bit(0) == 0 && n.Bit(0) == 1 {
				x.Sub(x, b1)
			}
			f = w.le(l.a, w.konst(x))
		}
		w.quoFact(f, l, fLe, n)
		w.quoFact(w.not(f), l, fGe, new(big.Int).Add(n, b1))
		return f
	}
	switch k {
	case fLe:
		return le(n)
	case fGe:
		return w.not(le(new(big.Int).Sub(n, b1)))
	}
	f := w.and(le(n), w.not(le(new(big.Int).Sub(n, b1))))
	if k == fNe {
		f = w.not(f)
	}
	return f
}

func (w *Worker) quoFact(f *Form, l *Term, k fkind, n *big.Int) {
	if f.k == fTrue || f.k == fFalse {
		return
	}
	p := w.p
	if p == nil || w.inQuery {
		return // only what the path itself builds may steer it: re-executions must agree
	}
	q := qfact{l, k, n}
	for _, o := range p.qs[f.id] {
		if o.t == l && o.k == k && o.n.Cmp(n) == 0 {
			return
		}
	}
	p.qs[f.id] = append(p.qs[f.id], q)
	if v, ok := p.known[f.id]; ok && v {
		p.learnQuo(q)
	}
}

// rnd is a/d rounded to the nearest, ties to even, for a >= 0.
func (w *Worker) rnd(a *Term, d *big.Int) *Term {
	half := new(big.Int).Rsh(d, 1)
	ev := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return rndHalfEven(x, d, half)
	}
	if a.k == kConst {
		return w.konst(ev(a.c))
	}
	// pull out the part divisible by 2d (keeps parity)
	c, ms := a.parts()
	d2 := new(big.Int).Lsh(d, 1)
	var in, out []mono
	for _, q := range ms {
		qq, rr := new(big.Int).DivMod(q.c, d2, new(big.Int))
		if rr.Sign() == 0 {
			out = append(out, mono{new(big.Int).Lsh(qq, 1), q.t})
		} else {
			in = append(in, q)
		}
	}
	if len(in) == 0 {
		return w.lin(ev(c), out)
	}
	// d | everything: exact
	exact := true
	for _, q := range in {
		exact = exact && new(big.Int).Mod(q.c, d).Sign() == 0
	}
	if exact && new(big.Int).Mod(c, d).Sign() == 0 {
		return w.divK(a, d)
	}
	da := w.konst(d)
	return w.intern("r"+strconv.Itoa(a.id)+"/"+strconv.Itoa(da.id), func() *Term {
		t := &Term{k: kRnd, a: a, b: da, lo: ev(a.lo), hi: ev(a.hi)}
		if t.lo == nil || t.lo.Sign() < 0 {
			t.lo = bz
		}
		return t
	})
}

func rndHalfEven(x, d, half *big.Int) *big.Int {
	q, r := new(big.Int).DivMod(x, d, new(big.Int))
	c := r.Cmp(half)
	if c > 0 || (c == 0 && d.Bit(0) == 0 && q.Bit(0) == 1) {
		q.Add(q, b1)
	}
	return q
}

func (w *Worker) bool(b bool) *Form {
	if b {
		return w.tr
	}
	return w.fa
}

// le0: t <= 0 ; eq0: t == 0
func (w *Worker) le0(t *Term) *Form {
	if t.k == kConst {
		return w.bool(t.c.Sign() <= 0)
	}
	c, g, b := w.norm(t)
	n := new(big.Int).Neg(c)
	if g.Sign() > 0 {
		return w.atom(fLe, b, floorDiv(n, g)) // b <= -c/g
	}
	return w.atom(fGe, b, ceilDiv(n, g)) // b >= -c/g
}
func (w *Worker) eq0(t *Term) *Form {
	if t.k == kConst {
		return w.bool(t.c.Sign() == 0)
	}
	c, g, b := w.norm(t)
	n := new(big.Int).Neg(c)
	q, r := new(big.Int).QuoRem(n, g, new(big.Int))
	if r.Sign() != 0 {
		return w.fa
	}
	return w.atom(fEq, b, q)
}

func floorDiv(a, b *big.Int) *big.Int {
	if b.Sign() < 0 {
		a, b = new(big.Int).Neg(a), new(big.Int).Neg(b)
	}
	return new(big.Int).Div(a, b)
}
func ceilDiv(a, b *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), b))
}

func (w *Worker) lt(a, b *Term) *Form { return w.le0(w.add(w.sub(a, b), w.konst(b1))) }
func (w *Worker) le(a, b *Term) *Form { return w.le0(w.sub(a, b)) }
func (w *Worker) eq(a, b *Term) *Form { return w.eq0(w.sub(a, b)) }

func (w *Worker) not(f *Form) *Form {
	if f.neg != nil {
		return f.neg
	}
	var r *Form
	switch f.k {
	case fTrue:
		r = w.fa
	case fFalse:
		r = w.tr
	case fLe:
		r = w.atom(fGe, f.l, new(big.Int).Add(f.n, b1))
	case fGe:
		r = w.atom(fLe, f.l, new(big.Int).Sub(f.n, b1))
	case fEq:
		r = w.atom(fNe, f.l, f.n)
	case fNe:
		r = w.atom(fEq, f.l, f.n)
	case fAnd, fOr:
		subs := make([]*Form, len(f.subs))
		for i, s := range f.subs {
			subs[i] = w.not(s)
		}
		if f.k == fAnd {
			r = w.or(subs...)
		} else {
			r = w.and(subs...)
		}
	}
	f.neg = r
	return r
}

func (w *Worker) nary(k fkind, unit, zero *Form, fs []*Form) *Form {
	var out []*Form
	for _, f := range fs {
		if f == zero {
			return zero
		}
		if f == unit {
			continue
		}
		if f.k == k {
			out = append(out, f.subs...)
		} else {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].h < out[j].h || out[i].h == out[j].h && out[i].id < out[j].id })
	var u []*Form
	for _, f := range out {
		if len(u) == 0 || u[len(u)-1] != f {
			u = append(u, f)
		}
	}
	if len(u) == 0 {
		return unit
	}
	if len(u) == 1 {
		return u[0]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d&", k)
	for _, f := range u {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(f.id))
	}
	return w.form(sb.String(), func() *Form { return &Form{k: k, subs: u} })
}
func (w *Worker) and(fs ...*Form) *Form { return w.nary(fAnd, w.tr, w.fa, fs) }
func (w *Worker) or(fs ...*Form) *Form  { return w.nary(fOr, w.fa, w.tr, fs) }

// ---------------------------------------------------------------- evaluation

type Model struct {
	vals map[string]*big.Int
	memo map[int]*big.Int
}

func (m *Model) term(t *Term) *big.Int {
	if t.k == kConst {
		return t.c
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var v *big.Int
	switch t.k {
	case kVar:
		v = m.vals[t.name]
		if v == nil {
			v = bz
			if t.lo != nil && v.Cmp(t.lo) < 0 {
				v = t.lo
			}
			if t.hi != nil && v.Cmp(t.hi) > 0 {
				v = t.hi
			}
			m.vals[t.name] = v
		}
	case kLin:
		v = new(big.Int).Set(t.c)
		for _, q := range t.ms {
			v.Add(v, new(big.Int).Mul(q.c, m.term(q.t)))
		}
	case kMul:
		v = new(big.Int).Mul(m.term(t.a), m.term(t.b))
	case kDiv:
		d := m.term(t.b)
		if d.Sign() == 0 {
			v = bz
		} else {
			v = new(big.Int).Div(m.term(t.a), d)
		}
	case kRnd:
		v = rndHalfEven(m.term(t.a), t.b.c, new(big.Int).Rsh(t.b.c, 1))
	case kIte:
		if m.form(t.cond) {
			v = m.term(t.a)
		} else {
			v = m.term(t.b)
		}
	}
	m.memo[t.id] = v
	return v
}

func (m *Model) form(f *Form) bool {
	switch f.k {
	case fTrue:
		return true
	case fFalse:
		return false
	case fAnd:
		for _, s := range f.subs {
			if !m.form(s) {
				return false
			}
		}
		return true
	case fOr:
		for _, s := range f.subs {
			if m.form(s) {
				return true
			}
		}
		return false
	}
	c := m.term(f.l).Cmp(f.n)
	switch f.k {
	case fLe:
		return c <= 0
	case fGe:
		return c >= 0
	case fEq:
		return c == 0
	}
	return c != 0
}
