//go:build verifsym

package vf

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"cosmossdk.io/math"
)

// Worker owns a term table and a solver and executes one path at a time.
type Worker struct {
	n       int
	inQuery bool
	lastOps int
	idle    int
	terms   map[string]*Term
	byID    []*Term
	forms   map[string]*Form
	nform   int
	tr, fa  *Form
	ss      [2]*solver
	gen     int
	st      Stats
	p       *path
	ex      *Explorer
	env     any
	envFor  *Harness
	epoch   int
	rng     *rand.Rand
}

// dec is one recorded outcome; h identifies the formula or choice it belongs to.
type dec struct {
	d int16
	h uint32
}

type item struct {
	prefix []dec // outcomes of decisions / choices
	vals   map[string]*big.Int
}

type path struct {
	h       *Harness
	prefix  []dec
	idx     int
	trace   []dec
	choices []Choice
	pc      []*Form
	known   map[int]bool    // form id -> truth
	qs      map[int][]qfact // form id -> what it says about quotients
	lo, hi  map[int]*big.Int
	m       *Model
	noModel bool // pc not known to be satisfiable
	vars    []*Term
	obs     []obsv
	aborted string
	unsat   bool
	split   int64
	reached map[string]bool
	ndec    int
	knownID string
	ops     int
	since   time.Time
}

type obsv struct {
	name string
	v    any
}

// T is the harness handle.
type T struct {
	w       *Worker
	Env     any
	tier    string
	prop    string
	nFailed int
	known   string
}

func newWorker(n int) *Worker {
	w := &Worker{n: n, rng: rand.New(rand.NewSource(int64(n) + Seed*1000))}
	w.reset()
	return w
}

func (w *Worker) reset() {
	w.stopSolver()
	w.terms = map[string]*Term{}
	w.byID = nil
	w.forms = map[string]*Form{}
	w.nform = 0
	w.tr = w.form("T", func() *Form { return &Form{k: fTrue} })
	w.fa = w.form("F", func() *Form { return &Form{k: fFalse} })
	w.epoch++
}

var warnMu sync.Mutex
var warned = map[string]int{}

func (w *Worker) warn(s string) {
	warnMu.Lock()
	defer warnMu.Unlock()
	warned[s]++
	if warned[s] <= 3 {
		fmt.Fprintln(os.Stderr, "warn:", s)
	}
}

// abort ends the current path without a verdict.
func (w *Worker) abort(why string) {
	if w.p.aborted == "" {
		w.p.aborted = why
	}
	runtime.Goexit()
}

func (p *path) bounds(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	if t.k == kConst {
		return
	}
	if t.k == kLin && len(t.ms) > 0 {
		// through the normalised base
		c, g, b := t.w.norm(t)
		if b != t {
			bl, bh := p.bounds(b)
			if g.Sign() < 0 {
				bl, bh = bh, bl
			}
			if bl != nil {
				v := new(big.Int).Mul(bl, g)
				v.Add(v, c)
				if lo == nil || v.Cmp(lo) > 0 {
					lo = v
				}
			}
			if bh != nil {
				v := new(big.Int).Mul(bh, g)
				v.Add(v, c)
				if hi == nil || v.Cmp(hi) < 0 {
					hi = v
				}
			}
			return
		}
		// sum of atoms with path bounds
		sl, sh := new(big.Int).Set(t.c), new(big.Int).Set(t.c)
		for _, m := range t.ms {
			al, ah := p.atomBounds(m.t)
			if m.c.Sign() < 0 {
				al, ah = ah, al
			}
			sl, sh = addB(sl, mulB(al, m.c)), addB(sh, mulB(ah, m.c))
		}
		if sl != nil && (lo == nil || sl.Cmp(lo) > 0) {
			lo = sl
		}
		if sh != nil && (hi == nil || sh.Cmp(hi) < 0) {
			hi = sh
		}
	}
	if v := p.lo[t.id]; v != nil && (lo == nil || v.Cmp(lo) > 0) {
		lo = v
	}
	if v := p.hi[t.id]; v != nil && (hi == nil || v.Cmp(hi) < 0) {
		hi = v
	}
	return
}

func (p *path) atomBounds(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	if v := p.lo[t.id]; v != nil && (lo == nil || v.Cmp(lo) > 0) {
		lo = v
	}
	if v := p.hi[t.id]; v != nil && (hi == nil || v.Cmp(hi) < 0) {
		hi = v
	}
	if t.k == kRnd {
		al, ah := p.bounds(t.a)
		half := new(big.Int).Rsh(t.b.c, 1)
		if al != nil && al.Sign() >= 0 {
			if v := rndHalfEven(al, t.b.c, half); lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		if ah != nil && ah.Sign() >= 0 {
			if v := rndHalfEven(ah, t.b.c, half); hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
	}
	if t.k == kDiv && t.b.k != kConst {
		al, ah := p.bounds(t.a)
		dl, dh := p.bounds(t.b)
		if al != nil && al.Sign() >= 0 && dl != nil && dl.Sign() > 0 {
			if ah != nil {
				if v := new(big.Int).Div(ah, dl); hi == nil || v.Cmp(hi) < 0 {
					hi = v
				}
			}
			if dh != nil {
				if v := new(big.Int).Div(al, dh); lo == nil || v.Cmp(lo) > 0 {
					lo = v
				}
			}
		}
	}
	if t.k == kDiv && t.b.k == kConst {
		al, ah := p.bounds(t.a)
		if al != nil {
			if v := new(big.Int).Div(al, t.b.c); lo == nil || v.Cmp(lo) > 0 {
				lo = v
			}
		}
		if ah != nil {
			if v := new(big.Int).Div(ah, t.b.c); hi == nil || v.Cmp(hi) < 0 {
				hi = v
			}
		}
	}
	return
}

// implied decides f from recorded literals and intervals: 1 true, 0 false, -1 unknown.
func (p *path) implied(f *Form) int {
	switch f.k {
	case fTrue:
		return 1
	case fFalse:
		return 0
	}
	if v, ok := p.known[f.id]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch f.k {
	case fLe, fGe, fEq, fNe:
		lo, hi := p.bounds(f.l)
		switch f.k {
		case fLe:
			if hi != nil && hi.Cmp(f.n) <= 0 {
				return 1
			}
			if lo != nil && lo.Cmp(f.n) > 0 {
				return 0
			}
		case fGe:
			if lo != nil && lo.Cmp(f.n) >= 0 {
				return 1
			}
			if hi != nil && hi.Cmp(f.n) < 0 {
				return 0
			}
		default:
			out := (lo != nil && lo.Cmp(f.n) > 0) || (hi != nil && hi.Cmp(f.n) < 0)
			in := lo != nil && hi != nil && lo.Cmp(hi) == 0 && lo.Cmp(f.n) == 0
			if out == in {
				return -1
			}
			if (f.k == fEq) == in {
				return 1
			}
			return 0
		}
	case fAnd:
		all := true
		for _, s := range f.subs {
			switch p.implied(s) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
	case fOr:
		all := true
		for _, s := range f.subs {
			switch p.implied(s) {
			case 1:
				return 1
			case -1:
				all = false
			}
		}
		if all {
			return 0
		}
	}
	return -1
}

func (p *path) learnQuo(q qfact) {
	if q.k == fLe {
		if v := p.hi[q.t.id]; v == nil || q.n.Cmp(v) < 0 {
			p.hi[q.t.id] = q.n
		}
	} else if v := p.lo[q.t.id]; v == nil || q.n.Cmp(v) > 0 {
		p.lo[q.t.id] = q.n
	}
}

// learn records a true formula in the path's quick tables.
func (w *Worker) learn(f *Form) {
	p := w.p
	p.known[f.id] = true
	p.known[w.not(f).id] = false
	for _, q := range p.qs[f.id] {
		p.learnQuo(q)
	}
	switch f.k {
	case fAnd:
		for _, s := range f.subs {
			w.learn(s)
		}
	case fLe, fEq:
		if v := p.hi[f.l.id]; v == nil || f.n.Cmp(v) < 0 {
			p.hi[f.l.id] = f.n
		}
	}
	if f.k == fGe || f.k == fEq {
		if v := p.lo[f.l.id]; v == nil || f.n.Cmp(v) > 0 {
			p.lo[f.l.id] = f.n
		}
	}
}

func (w *Worker) assert(f *Form) {
	if f.k == fTrue {
		return
	}
	w.p.pc = append(w.p.pc, f)
	w.learn(f)
}

// decide forks on f.
func (w *Worker) decide(f *Form) bool {
	p := w.p
	if p.aborted != "" {
		runtime.Goexit()
	}
	w.tick()
	switch p.implied(f) {
	case 1:
		return true
	case 0:
		return false
	}
	w.st.Decisions++
	if debugging {
		w.ex.mu.Lock()
		dbgForms[uint32(f.h)] = f.str(6)
		w.ex.mu.Unlock()
	}
	if w.ex.expired() {
		w.abort("time")
	}
	if p.idx < len(p.prefix) {
		if p.prefix[p.idx].h != uint32(f.h) {
			w.warn("nondeterministic re-execution in " + p.h.Name)
			if debugging {
				w.ex.mu.Lock()
				fmt.Fprintln(os.Stderr, "now:", f.str(6), "\nbefore:", dbgForms[p.prefix[p.idx].h])
				w.ex.mu.Unlock()
				debug.PrintStack()
			}
			w.abort("nondeterministic")
		}
		d := p.prefix[p.idx].d
		p.trace = append(p.trace, p.prefix[p.idx])
		p.idx++
		g := f
		if d&1 == 0 {
			g = w.not(f)
		}
		if d >= 2 { // forced: implied by pc
			w.learn(g)
		} else {
			w.assert(g)
		}
		return d&1 == 1
	}
	if len(p.trace) > w.ex.maxDepth {
		w.abort("depth")
	}
	nf := w.not(f)
	if p.m == nil {
		r, m := w.query(p.pc, nil, w.ex.ms(w.ex.branchMs))
		if r == rUnsat {
			p.unsat = true
			w.abort("infeasible")
		}
		p.m = m
	}
	bit := func(b bool, or int16) dec {
		d := dec{or, uint32(f.h)}
		if b {
			d.d |= 1
		}
		return d
	}
	if p.m != nil {
		v := p.m.form(f)
		g, o := f, nf
		if !v {
			g, o = nf, f
		}
		r, m := w.query(p.pc, o, w.ex.ms(w.ex.branchMs))
		if r == rUnsat {
			w.st.Forced++
			if profiling {
				profSite("forced")
			}
			p.trace = append(p.trace, bit(v, 2))
			w.learn(g)
			return v
		}
		if profiling {
			profSite("fork")
		}
		w.ex.push(w, p.child(bit(!v, 0)), m)
		p.trace = append(p.trace, bit(v, 0))
		w.assert(g)
		return v
	}
	// no model at all
	rt, mt := w.query(p.pc, f, w.ex.ms(w.ex.branchMs))
	rf, mf := w.query(p.pc, nf, w.ex.ms(w.ex.branchMs))
	switch {
	case rt == rUnsat && rf == rUnsat:
		p.unsat = true
		w.abort("infeasible")
	case rt == rUnsat:
		p.trace = append(p.trace, bit(false, 2))
		w.learn(nf)
		p.m = mf
		return false
	case rf == rUnsat:
		p.trace = append(p.trace, bit(true, 2))
		w.learn(f)
		p.m = mt
		return true
	}
	w.ex.push(w, p.child(bit(false, 0)), mf)
	p.trace = append(p.trace, bit(true, 0))
	w.assert(f)
	p.m = mt
	return true
}

func (p *path) child(d dec) []dec {
	c := make([]dec, len(p.trace)+1)
	copy(c, p.trace)
	c[len(p.trace)] = d
	return c
}

// ---------------------------------------------------------------- harness API

func (t *T) Thorough() bool { return t.tier == "thorough" }

// Int returns a fresh symbolic integer in [lo,hi].
func (t *T) Int(name string, lo, hi any) math.Int {
	w := t.w
	l, h := bigOf(lo), bigOf(hi)
	v := w.variable(name, l, h)
	for _, o := range w.p.vars {
		if o.name == name {
			panic("duplicate variable " + name)
		}
	}
	w.p.vars = append(w.p.vars, v)
	if l != nil && h != nil && l.Cmp(h) == 0 {
		return math.NewIntFromBigInt(l)
	}
	if l != nil {
		w.p.pc = append(w.p.pc, w.form(fmt.Sprintf("%d|%d|%s!", fGe, v.id, l.Text(36)), func() *Form { return &Form{k: fGe, l: v, n: l} }))
	}
	if h != nil {
		w.p.pc = append(w.p.pc, w.form(fmt.Sprintf("%d|%d|%s!", fLe, v.id, h.Text(36)), func() *Form { return &Form{k: fLe, l: v, n: h} }))
	}
	if w.p.m != nil {
		// keep the current model a model
		x := w.p.m.vals[name]
		if x == nil || (l != nil && x.Cmp(l) < 0) || (h != nil && x.Cmp(h) > 0) {
			x = big.NewInt(0)
			if l != nil && x.Cmp(l) < 0 {
				x = l
			}
			if h != nil && x.Cmp(h) > 0 {
				x = h
			}
			w.p.m.vals[name] = x
			w.p.m.memo = map[int]*big.Int{}
		}
	}
	return math.NewIntFromBigInt(big.NewSym(v))
}

// Choose forks over 0..n-1.
func (t *T) Choose(name string, n int) int {
	p := t.w.p
	if n <= 0 {
		t.w.abort("empty choice")
	}
	v := 0
	if n == 1 {
		p.choices = append(p.choices, Choice{name, v})
		return v
	}
	h := uint32(hstr(name))
	if p.idx < len(p.prefix) {
		if p.prefix[p.idx].h != h {
			t.w.warn("nondeterministic re-execution in " + p.h.Name)
			t.w.abort("nondeterministic")
		}
		v = int(p.prefix[p.idx].d)
		p.idx++
	} else {
		for i := n - 1; i > 0; i-- {
			t.w.ex.push(t.w, p.child(dec{int16(i), h}), p.m)
		}
	}
	p.trace = append(p.trace, dec{int16(v), h})
	p.choices = append(p.choices, Choice{name, v})
	return v
}

// MapOrder selects the map iteration order of the code executed from here on.
func (t *T) MapOrder(k int) { runtime.VfMapOff(uint32(k + 1)) }

// Assume drops paths on which b is false.
func (t *T) Assume(b bool) {
	if !b {
		t.w.abort("assume")
	}
}

// Reach marks a label as reached (vacuity guard).
func (t *T) Reach(label string) { t.w.p.reached[label] = true }

// Check reports a violation of label when ok is false on a feasible path.
func (t *T) Check(prop, label string, ok bool) {
	w := t.w
	if !t.On(prop) {
		return
	}
	w.p.reached["check:"+label] = true
	w.st.Checks++
	if ok {
		return
	}
	w.violation(prop, label, "")
	w.abort("violation")
}

// Known marks a failing condition as a listed finding for the rest of the path.
func (t *T) Eq(prop, label string, a, b math.Int) {
	t.Check(prop, label, a.Equal(b))
}

func (w *Worker) violation(prop, label, detail string) {
	p := w.p
	m := p.m
	if m == nil {
		var r res
		r, m = w.query(p.pc, nil, w.ex.ms(w.ex.checkMs))
		if r == rUnknown {
			r, m = w.oneShot(p.pc, nil, w.ex.ms(w.ex.checkMs)/1000+1)
		}
		if r == rUnsat {
			p.unsat = true
			return
		}
		if r == rUnknown {
			w.st.Undecided++
			w.ex.undecided(prop, label)
			return
		}
	}
	wit := w.witness(m)
	wit.Prop, wit.Label, wit.Detail, wit.Known = prop, label, detail, p.knownID
	w.ex.report(wit)
}

func (w *Worker) witness(m *Model) *Witness {
	p := w.p
	wit := &Witness{Harness: p.h.Name, Tier: w.ex.tier, Vals: map[string]string{}, Choices: append([]Choice(nil), p.choices...)}
	for _, v := range p.vars {
		wit.Vals[v.name] = m.term(v).Text(10)
	}
	for _, o := range p.obs {
		wit.Obs = append(wit.Obs, o.name+"="+w.render(m, o.v))
	}
	return wit
}

func (w *Worker) render(m *Model, v any) string {
	var b *big.Int
	switch x := v.(type) {
	case math.Int:
		if x.IsNil() {
			return "nil"
		}
		b = x.BigInt()
	case math.LegacyDec:
		if x.IsNil() {
			return "nil"
		}
		b = x.BigInt()
	default:
		return fmt.Sprint(v)
	}
	if tm, ok := b.SymVal().(*Term); ok {
		return m.term(tm).Text(10)
	}
	return b.Text(10)
}

// Observe records a value that the native replay must reproduce.
func (t *T) Observe(name string, v any) {
	t.w.p.obs = append(t.w.p.obs, obsv{name, v})
}

// On reports whether property prop is being decided by this run.
func (t *T) On(prop string) bool { return t.w.ex.prop == "" || t.w.ex.prop == prop }

// Known marks the rest of the path as an instance of a listed finding.
func (t *T) Known(id string) { t.w.p.knownID = id }

// Symbolic reports whether this is the symbolic build.
func Symbolic() bool { return true }

// Case returns a name usable to make labels unique.
func (t *T) Failf(prop, label, format string, args ...any) {
	if !t.On(prop) {
		return
	}
	t.w.violation(prop, label, fmt.Sprintf(format, args...))
	t.w.abort("violation")
}

// ---------------------------------------------------------------- hooks

func asTerm(w *Worker, v any) *Term {
	if t, ok := v.(*Term); ok {
		if t.w != w {
			panic("vf: term of another worker")
		}
		return t
	}
	return w.konst(v.(*big.Int))
}

func two(x, y any) (*Worker, *Term, *Term) {
	var w *Worker
	if t, ok := x.(*Term); ok {
		w = t.w
	} else {
		w = y.(*Term).w
	}
	w.tick()
	return w, asTerm(w, x), asTerm(w, y)
}

// limits beyond which a path counts as not terminating
const (
	maxStack = 96 << 20
	maxOps   = 3000000
)

// MaxOps is the largest number of operations seen on a path (profiling).
var MaxOps int

func (w *Worker) tick() {
	p := w.p
	if p == nil {
		return
	}
	p.ops++
	if profiling && p.ops > MaxOps {
		MaxOps = p.ops
	}
	if p.ops&63 == 0 && p.aborted == "" {
		if runtime.VfStackSize() > maxStack || p.ops > maxOps {
			p.reached["hang"] = true
			w.violation("", "hang", "does not terminate")
			w.abort("hang")
		}
	}
}

func outv(t *Term) any {
	if t.k == kConst {
		return t.c
	}
	return t
}

func (w *Worker) floorDivT(x, y *Term) *Term {
	if y.k == kConst {
		switch y.c.Sign() {
		case 0:
			panic("division by zero")
		case 1:
			return w.divK(x, y.c)
		}
		// floor(x / -m) = floor(-x / m)
		return w.divK(w.scale(x, big.NewInt(-1)), new(big.Int).Neg(y.c))
	}
	if w.decide(w.eq0(y)) {
		panic("division by zero")
	}
	if w.decide(w.le0(y)) {
		x, y = w.scale(x, big.NewInt(-1)), w.scale(y, big.NewInt(-1))
	}
	return w.divPos(x, y)
}

// divPos is the floor division by a symbolic positive divisor.
func (w *Worker) divPos(x, y *Term) *Term {
	if x.k == kConst && x.c.Sign() == 0 {
		return x
	}
	// common factor: (g·a)/(g·b)
	if x.k != kConst {
		cx, gx, bx := w.norm(x)
		cy, gy, by := w.norm(y)
		g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(gx), new(big.Int).Abs(gy))
		g.GCD(nil, nil, g, new(big.Int).Abs(cx))
		g.GCD(nil, nil, g, new(big.Int).Abs(cy))
		if g.Cmp(b1) > 0 {
			x = w.addScaled(w.konst(new(big.Int).Quo(cx, g)), bx, new(big.Int).Quo(gx, g))
			y = w.addScaled(w.konst(new(big.Int).Quo(cy, g)), by, new(big.Int).Quo(gy, g))
		}
	}
	if x == y {
		return w.konst(b1)
	}
	if x.k != kConst {
		// proportional operands
		cx, gx, bx := w.norm(x)
		cy, gy, by := w.norm(y)
		if bx == by && new(big.Int).Mul(cx, gy).Cmp(new(big.Int).Mul(cy, gx)) == 0 {
			return w.konst(floorDiv(gx, gy))
		}
	}
	q := w.divAtom(x, y)
	return q
}

func (w *Worker) truncDiv(x, y *Term) *Term {
	nx, ny := false, false
	if y.k == kConst {
		ny = y.c.Sign() < 0
	} else {
		ny = w.decide(w.lt(y, w.konst(bz)))
	}
	if x.k == kConst {
		nx = x.c.Sign() < 0
	} else {
		nx = w.decide(w.lt(x, w.konst(bz)))
	}
	m1 := big.NewInt(-1)
	if nx {
		x = w.scale(x, m1)
	}
	if ny {
		y = w.scale(y, m1)
	}
	q := w.floorDivT(x, y)
	if nx != ny {
		q = w.scale(q, m1)
	}
	return q
}

func (w *Worker) unsup(what string) {
	w.st.Unsupported++
	w.warn("unsupported: " + what)
	if os.Getenv("VF_DEBUG") != "" {
		debug.PrintStack()
	}
	w.abort("unsupported " + what)
}

var workersMu sync.RWMutex
var workersByN = map[int]*Worker{}

func init() {
	big.Sym = big.SymHooks{
		Sign: func(x any) int {
			t := x.(*Term)
			if t.w.decide(t.w.eq0(t)) {
				return 0
			}
			if t.w.decide(t.w.le0(t)) {
				return -1
			}
			return 1
		},
		Cmp: func(x, y any) int {
			w, a, b := two(x, y)
			if w.decide(w.eq(a, b)) {
				return 0
			}
			if w.decide(w.lt(a, b)) {
				return -1
			}
			return 1
		},
		CmpOp: func(op int, x, y any) bool {
			w, a, b := two(x, y)
			switch op {
			case 0:
				return w.decide(w.lt(a, b))
			case 1:
				return w.decide(w.le(a, b))
			}
			return w.decide(w.eq(a, b))
		},
		Un: func(op int, x any) any {
			t := x.(*Term)
			w := t.w
			switch op {
			case 1: // Abs
				if w.decide(w.lt(t, w.konst(bz))) {
					return outv(w.scale(t, big.NewInt(-1)))
				}
				return t
			case 2:
				return outv(w.scale(t, big.NewInt(-1)))
			}
			w.unsup("unary big.Int op")
			return nil
		},
		Bin: func(op int, x, y any) any {
			w, a, b := two(x, y)
			switch op {
			case 1:
				return outv(w.add(a, b))
			case 2:
				return outv(w.sub(a, b))
			case 3:
				return outv(w.mul(a, b))
			case 4:
				q := w.truncDiv(a, b)
				if w.p.split > 0 && q.k != kConst && b.k == kConst {
					lo, hi := w.p.bounds(q)
					if lo != nil && hi != nil && new(big.Int).Sub(hi, lo).Cmp(big.NewInt(w.p.split)) <= 0 {
						return w.bisect(q)
					}
				}
				return outv(q)
			case 5:
				return outv(w.sub(a, w.mul(b, w.truncDiv(a, b))))
			case 6, 7: // Euclidean
				if b.k != kConst && w.decide(w.lt(b, w.konst(bz))) || b.k == kConst && b.c.Sign() < 0 {
					w.unsup("euclidean division by a negative")
				}
				q := w.floorDivT(a, b)
				if op == 6 {
					return outv(q)
				}
				return outv(w.sub(a, w.mul(b, q)))
			}
			w.unsup("binary big.Int op " + strconv.Itoa(op))
			return nil
		},
		Conc: func(x any) *big.Int {
			t := x.(*Term)
			return t.w.concretise(t)
		},
		BitLen: func(x any) int {
			t := x.(*Term)
			// smallest upper bound over a few thresholds
			for _, n := range []int{63, 64, 255, 256, 314, 315} {
				if !big.Sym.BitGT(t, n) {
					return n
				}
			}
			return 512
		},
		BitGT: func(x any, n int) bool {
			t := x.(*Term)
			w := t.w
			lim := new(big.Int).Lsh(b1, uint(n))
			lo, hi := w.p.bounds(t)
			if lo != nil && hi != nil && hi.Cmp(lim) < 0 && new(big.Int).Neg(lo).Cmp(lim) < 0 {
				return false
			}
			f := w.or(w.le(w.konst(lim), t), w.le(t, w.konst(new(big.Int).Neg(lim))))
			return w.decide(f)
		},
		Bit: func(x any, i int) uint {
			t := x.(*Term)
			w := t.w
			p := new(big.Int).Lsh(b1, uint(i))
			if w.decide(w.eq0(w.modK(w.divK(t, p), bTwo))) {
				return 0
			}
			return 1
		},
		Digits: func(x any) string {
			t := x.(*Term)
			w := t.w
			a := t
			sgn := ""
			if w.decide(w.lt(t, w.konst(bz))) {
				a = w.scale(t, big.NewInt(-1))
				sgn = "-"
			}
			// binary search for the number of digits
			lo, hi := 1, 110
			l, h := w.p.bounds(a)
			if l != nil && l.Sign() > 0 {
				lo = len(l.Text(10))
			}
			if h != nil {
				hi = len(h.Text(10))
			}
			for lo < hi {
				mid := (lo + hi) / 2
				if w.decide(w.lt(a, w.konst(Pow10(mid)))) {
					hi = mid
				} else {
					lo = mid + 1
				}
			}
			return sgn + strings.Repeat("#", lo)
		},
		Token: func(x any) string {
			t := x.(*Term)
			return fmt.Sprintf("%s%02d%012d", big.SymTokenPrefix, t.w.n, t.id)
		},
		Parse: func(s string) any {
			n, e1 := strconv.Atoi(s[len(big.SymTokenPrefix) : len(big.SymTokenPrefix)+2])
			id, e2 := strconv.Atoi(s[len(big.SymTokenPrefix)+2:])
			if e1 != nil || e2 != nil {
				return nil
			}
			workersMu.RLock()
			w := workersByN[n]
			workersMu.RUnlock()
			if w == nil || id >= len(w.byID) {
				return nil
			}
			return outv(w.byID[id])
		},
		Unsup: func(what string) {
			// no operand: find the worker through the running path is impossible; end the goroutine
			fmt.Fprintln(os.Stderr, "warn: unsupported big.Int operation:", what)
			if os.Getenv("VF_DEBUG") != "" {
				debug.PrintStack()
			}
			runtime.Goexit()
		},
		RoundDiv: func(mode int, x any, d *big.Int) any {
			t := x.(*Term)
			w := t.w
			neg := w.decide(w.lt(t, w.konst(bz)))
			if neg {
				t = w.scale(t, big.NewInt(-1))
			}
			if mode == 1 {
				if neg {
					return outv(w.scale(w.divK(t, d), big.NewInt(-1)))
				}
				return outv(w.divK(w.add(t, w.konst(new(big.Int).Sub(d, b1))), d))
			}
			v := w.rnd(t, d)
			if neg {
				v = w.scale(v, big.NewInt(-1))
			}
			return outv(v)
		},
		MinMax: func(max bool, x, y any) any {
			w, a, b := two(x, y)
			f := w.le(a, b)
			switch w.p.implied(f) {
			case 1:
				if max {
					return outv(b)
				}
				return outv(a)
			case 0:
				if max {
					return outv(a)
				}
				return outv(b)
			}
			if ForkMinMax {
				if w.decide(f) != max {
					return outv(a)
				}
				return outv(b)
			}
			if max {
				return outv(w.ite(f, b, a))
			}
			return outv(w.ite(f, a, b))
		},
	}
}

var ForkMinMax = os.Getenv("VF_FORKMIN") != ""

// concretise forks over the values of a term (at most 64).
func (w *Worker) concretise(t *Term) *big.Int {
	for i := 0; i < 128; i++ {
		lo, hi := w.p.bounds(t)
		if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return lo
		}
		if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).Cmp(big.NewInt(100000)) > 0 {
			w.unsup("concretisation of an unbounded term")
		}
		// candidate from lower bound keeps the order deterministic
		if w.decide(w.eq(t, w.konst(lo))) {
			return lo
		}
		w.learn(w.le(w.konst(new(big.Int).Add(lo, b1)), t))
	}
	w.unsup("concretisation over too many values")
	return nil
}

// bisect forks over the values of a term with a narrow interval.
func (w *Worker) bisect(t *Term) *big.Int {
	lo, hi := w.p.bounds(t)
	for lo.Cmp(hi) < 0 {
		mid := new(big.Int).Add(lo, hi)
		mid.Rsh(mid, 1)
		if w.decide(w.le(t, w.konst(mid))) {
			hi = mid
		} else {
			lo = mid.Add(mid, big.NewInt(1))
		}
		nlo, nhi := w.p.bounds(t)
		if nlo.Cmp(lo) > 0 {
			lo = nlo
		}
		if nhi.Cmp(hi) < 0 {
			hi = nhi
		}
	}
	return lo
}

// SplitQuo makes quotients by constants with at most n+1 possible values fork to concrete values.
func (t *T) SplitQuo(n int) { t.w.p.split = int64(n) }

// Concrete forks over the values of x (its interval must be narrow).
func (t *T) Concrete(x math.Int) math.Int {
	v, ok := x.BigInt().SymVal().(*Term)
	if !ok {
		return x
	}
	return math.NewIntFromBigInt(t.w.bisect(v))
}

// ---------------------------------------------------------------- exploration

type Explorer struct {
	h        *Harness
	tier     string
	prop     string
	deadline time.Time
	maxDepth int
	branchMs int
	checkMs  int

	mu       sync.Mutex
	cond     *sync.Cond
	stacks   [][]*item
	busy     int
	stop     bool
	timedOut bool

	viol    []*Witness
	violKey map[string]int
	und     map[string]int
	samples []*Witness
	reached map[string]int64
	aborts  map[string]int64
	total   Stats
}

// ms clips a solver timeout to the time left.
func (e *Explorer) ms(n int) int {
	left := int(time.Until(e.deadline)/time.Millisecond) + 500
	if left < 500 {
		left = 500
	}
	if n > left {
		return left
	}
	return n
}

const hangAfter = 20 * time.Second

func (e *Explorer) expired() bool {
	return time.Now().After(e.deadline)
}

func (e *Explorer) push(w *Worker, prefix []dec, m *Model) {
	it := &item{prefix: prefix}
	if m != nil {
		// copied: the model may still grow with the variables this path introduces
		it.vals = make(map[string]*big.Int, len(m.vals))
		for k, v := range m.vals {
			it.vals[k] = v
		}
	}
	e.mu.Lock()
	e.stacks[w.n%len(e.stacks)] = append(e.stacks[w.n%len(e.stacks)], it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop(w *Worker) *item {
	e.mu.Lock()
	defer e.mu.Unlock()
	i := w.n % len(e.stacks)
	for {
		if e.stop || e.expired() {
			for _, s := range e.stacks {
				if len(s) > 0 {
					e.timedOut = true
				}
			}
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if s := e.stacks[i]; len(s) > 0 {
			k := len(s) - 1
			if w.rng.Intn(4) == 0 {
				k = w.rng.Intn(len(s))
			}
			it := s[k]
			e.stacks[i] = append(s[:k], s[k+1:]...)
			e.busy++
			return it
		}
		// steal the oldest item of the largest stack
		best := -1
		for j := range e.stacks {
			if len(e.stacks[j]) > 0 && (best < 0 || len(e.stacks[j]) > len(e.stacks[best])) {
				best = j
			}
		}
		if best >= 0 {
			it := e.stacks[best][0]
			e.stacks[best] = append([]*item(nil), e.stacks[best][1:]...)
			e.busy++
			return it
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.busy--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) report(wit *Witness) {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := wit.Prop + "/" + wit.Label + "/" + wit.Known
	e.violKey[k]++
	if e.violKey[k] <= 4 {
		e.viol = append(e.viol, wit)
	}
	if e.violKey[k] > 200 && wit.Known == "" {
		e.stop = true
	}
}

func (e *Explorer) undecided(prop, label string) {
	e.mu.Lock()
	e.und[prop+"/"+label]++
	e.mu.Unlock()
}

func (w *Worker) runPath(it *item) {
	e := w.ex
	p := &path{h: e.h, prefix: it.prefix, known: map[int]bool{}, qs: map[int][]qfact{}, lo: map[int]*big.Int{}, hi: map[int]*big.Int{},
		reached: map[string]bool{}}
	if it.vals != nil || len(it.prefix) == 0 {
		m := &Model{vals: map[string]*big.Int{}, memo: map[int]*big.Int{}}
		for k, v := range it.vals {
			m.vals[k] = v
		}
		p.m = m
	}
	w.p = p
	w.st.Paths++
	done := make(chan struct{})
	finished := false
	go func() {
		defer close(done)
		defer func() {
			if finished || p.aborted != "" {
				return
			}
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if os.Getenv("VF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", r, debug.Stack())
				}
				p.reached["panic"] = true
				func() {
					defer func() { recover() }()
					w.violation("", "panic", msg)
				}()
				p.aborted = "panic"
				return
			}
			p.aborted = "goexit"
		}()
		runtime.VfMapOff(1)
		defer runtime.VfMapOff(0)
		t := &T{w: w, Env: w.env, tier: e.tier}
		e.h.Run(t)
		finished = true
	}()
	p.since = time.Now()
	for waiting := true; waiting; {
		select {
		case <-done:
			waiting = false
		case <-time.After(2 * time.Second):
			// a loop that never touches a symbolic value cannot be stopped: report it and end the process
			if !w.inQuery && time.Since(p.since) > hangAfter && p.ops == w.lastOps {
				w.idle++
				if w.idle > 10 {
					w.violation("", "hang", "does not terminate")
					e.aborts["hang"]++
					Flush(e, "hang")
				}
			} else {
				w.idle, w.lastOps = 0, p.ops
			}
		}
	}
	if p.idx < len(p.prefix) && p.aborted == "" {
		w.warn("prefix not consumed (nondeterministic harness?) in " + e.h.Name)
		p.aborted = "nondeterministic"
	}
	switch {
	case p.unsat:
		w.st.Infeasible++
	case p.aborted == "":
		w.st.PathsDone++
	default:
		w.st.Abandoned++
	}
	e.mu.Lock()
	if p.aborted != "" {
		e.aborts[p.aborted]++
	}
	if !p.unsat && (p.aborted == "" || p.aborted == "violation" || p.aborted == "panic" || p.aborted == "hang" || p.aborted == "assume") {
		for l := range p.reached {
			e.reached[l]++
		}
		if p.aborted == "" {
			e.reached["end"]++
		}
	}
	want := p.aborted == "" && p.m != nil && (len(e.samples) < 24 || w.rng.Intn(1+int(e.reached["end"])) < 12)
	e.mu.Unlock()
	if want {
		wit := w.witness(p.m)
		e.mu.Lock()
		if len(e.samples) < 24 {
			e.samples = append(e.samples, wit)
		} else {
			e.samples[w.rng.Intn(len(e.samples))] = wit
		}
		e.mu.Unlock()
	}
	if p.aborted == "time" {
		e.mu.Lock()
		e.timedOut = true
		e.mu.Unlock()
	}
	if len(w.byID) > 400000 {
		w.reset()
	}
}
