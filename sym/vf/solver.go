//go:build verifsym

package vf

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Stats are measured on the run.
type Stats struct {
	Paths, PathsDone, Infeasible, Abandoned, Unsupported             int64
	Decisions, Forced, Queries, Sat, Unsat, Unknown                  int64
	Checks, ChecksConst, Undecided, Solver2, Relaxed, Fixed, Guessed int64
	SolverNs                                                         int64
}

type solver struct {
	w     *Worker
	relax bool // products are unconstrained variables with bounding lemmas
	defs  map[int]bool
	decl  map[string]bool
	vars  []*Term
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	gen   int
	stack []*Form
	buf   strings.Builder
	to    int
	log   *os.File
	deadQ bool
}

func (w *Worker) startSolver(i int) *solver {
	s := &solver{w: w, relax: i == 0, defs: map[int]bool{}, decl: map[string]bool{}}
	bin := os.Getenv("VF_Z3")
	if bin == "" {
		bin = "z3-new"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic ALL)\n")
	w.ss[i] = s
	return s
}

func (w *Worker) stopSolver() {
	for i := range w.ss {
		w.stopOne(i)
	}
}

func (w *Worker) stopOne(i int) {
	if s := w.ss[i]; s != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		w.ss[i] = nil
	}
}

func num(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).Text(10) + ")"
	}
	return b.Text(10)
}

// ref returns the SMT reference of a term, emitting definitions to sb first.
func (e *emitter) ref(t *Term) string {
	switch t.k {
	case kConst:
		return num(t.c)
	case kVar:
		n := "|v " + t.name + "|"
		if !e.seenVar(t) {
			fmt.Fprintf(e.sb, "(declare-const %s Int)\n", n)
			e.vars = append(e.vars, t)
		}
		return n
	case kLin:
		return e.linExpr(t)
	}
	n := "t" + strconv.Itoa(t.id)
	if e.seen(t) {
		return n
	}
	var x string
	switch t.k {
	case kMul:
		if e.relax {
			fmt.Fprintf(e.sb, "(declare-const %s Int)\n", n)
			return n
		}
		x = "(* " + e.ref(t.a) + " " + e.ref(t.b) + ")"
	case kDiv:
		if t.b.k != kConst { // constrained by the formulas that use it
			fmt.Fprintf(e.sb, "(declare-const %s Int)\n", n)
			return n
		}
		x = "(div " + e.ref(t.a) + " " + e.ref(t.b) + ")"
	case kRnd:
		d := t.b.c
		q := "(div " + e.ref(t.a) + " " + num(d) + ")"
		r := "(mod " + e.ref(t.a) + " " + num(d) + ")"
		half := num(new(big.Int).Rsh(d, 1))
		x = "(let ((q " + q + ") (r " + r + ")) (ite (or (> r " + half + ") (and (= r " + half + ") (= (mod q 2) 1))) (+ q 1) q))"
		if d.Bit(0) == 1 {
			x = "(let ((q " + q + ") (r " + r + ")) (ite (> r " + half + ") (+ q 1) q))"
		}
	case kIte:
		x = "(ite " + e.form(t.cond) + " " + e.ref(t.a) + " " + e.ref(t.b) + ")"
	}
	fmt.Fprintf(e.sb, "(define-fun %s () Int %s)\n", n, x)
	return n
}

func (e *emitter) linExpr(t *Term) string {
	var sb strings.Builder
	sb.WriteString("(+ ")
	sb.WriteString(num(t.c))
	for _, m := range t.ms {
		r := e.ref(m.t)
		if m.c.Cmp(b1) == 0 {
			sb.WriteString(" " + r)
		} else {
			sb.WriteString(" (* " + num(m.c) + " " + r + ")")
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func (e *emitter) form(f *Form) string {
	switch f.k {
	case fTrue:
		return "true"
	case fFalse:
		return "false"
	case fAnd, fOr:
		op := "(and"
		if f.k == fOr {
			op = "(or"
		}
		for _, s := range f.subs {
			op += " " + e.form(s)
		}
		return op + ")"
	}
	l := e.ref(f.l)
	switch f.k {
	case fLe:
		return "(<= " + l + " " + num(f.n) + ")"
	case fGe:
		return "(>= " + l + " " + num(f.n) + ")"
	case fEq:
		return "(= " + l + " " + num(f.n) + ")"
	}
	return "(not (= " + l + " " + num(f.n) + "))"
}

// symbolic divisions below a term / formula
func (w *Worker) divsOf(t *Term, seen map[int]bool, out *[]*Term) {
	if t == nil || seen[t.id] {
		return
	}
	seen[t.id] = true
	switch t.k {
	case kLin:
		for _, m := range t.ms {
			w.divsOf(m.t, seen, out)
		}
	case kMul, kDiv, kRnd:
		w.divsOf(t.a, seen, out)
		w.divsOf(t.b, seen, out)
		if t.k == kDiv && t.b.k != kConst {
			w.divsOf(w.mul(t, t.b), seen, out) // the product of the side condition
		}
		if t.k == kMul || t.k == kDiv && t.b.k != kConst {
			*out = append(*out, t)
		}
	case kIte:
		w.divsOf(t.a, seen, out)
		w.divsOf(t.b, seen, out)
		w.divsForm(t.cond, seen, out)
	}
}

func (w *Worker) divsForm(f *Form, seen map[int]bool, out *[]*Term) {
	if f.l != nil {
		w.divsOf(f.l, seen, out)
	}
	for _, s := range f.subs {
		w.divsForm(s, seen, out)
	}
}

func (w *Worker) divs(f *Form) []*Term {
	if !f.coll {
		f.coll = true
		w.divsForm(f, map[int]bool{}, &f.divs)
	}
	return f.divs
}

// emitSides asserts the defining inequalities of the symbolic divisions used by f.
func (e *emitter) sides(f *Form, have map[int]bool) (out []string) {
	for _, q := range f.divs {
		if q.k != kDiv {
			continue
		}
		if have != nil {
			if have[q.id] {
				continue
			}
			have[q.id] = true
		}
		w := q.w
		qy := w.mul(q, q.b)
		for _, g := range []*Form{w.le(qy, q.a), w.lt(q.a, w.add(qy, q.b))} {
			out = append(out, "(assert "+e.form(g)+")\n")
		}
		if q.lo != nil {
			out = append(out, "(assert (>= "+e.ref(q)+" "+num(q.lo)+"))\n")
		}
		if q.hi != nil {
			out = append(out, "(assert (<= "+e.ref(q)+" "+num(q.hi)+"))\n")
		}
	}
	return
}

type emitter struct {
	sb    *strings.Builder
	relax bool
	set   map[int]bool
	names map[string]bool
	vars  []*Term
}

func (e *emitter) seenVar(t *Term) bool {
	if e.names[t.name] {
		return true
	}
	e.names[t.name] = true
	return false
}

func (e *emitter) seen(t *Term) bool {
	if e.set[t.id] {
		return true
	}
	e.set[t.id] = true
	return false
}

type res int

const (
	rUnknown res = iota
	rSat
	rUnsat
)

// query checks pc ∧ extra: first with products relaxed to variables (an unsat answer is
// final, a model is accepted when it satisfies the real constraints), then exactly.
func (w *Worker) query(pc []*Form, extra *Form, timeoutMs int) (res, *Model) {
	w.inQuery = true
	defer func() { w.inQuery = false }()
	t0 := time.Now()
	defer func() { w.st.SolverNs += int64(time.Since(t0)) }()
	w.st.Queries++
	var prods []*Term
	seen := map[int]bool{}
	for i := 0; i <= len(pc); i++ {
		f := extra
		if i < len(pc) {
			f = pc[i]
		}
		if f == nil {
			continue
		}
		for _, t := range w.divs(f) {
			if t.k == kMul && !seen[t.id] {
				seen[t.id] = true
				prods = append(prods, t)
			}
		}
	}
	ms := timeoutMs
	if len(prods) > 0 && ms > 2000 {
		ms = 2000
	}
	var lem []*Form
	if len(prods) > 0 {
		lem = w.lemmas(w.p, prods, seen)
	}
	r, m := w.queryOn(0, pc, extra, lem, len(prods) > 0, ms)
	if len(prods) > 0 && r == rUnknown {
		// the quotients' operands fixed as in a known model: linear
		fix := w.fixVars(prods)
		try := func(val func(i int, v *Term) *big.Int, ms int) bool {
			var eqs []*Form
			for i, v := range fix {
				eqs = append(eqs, w.eq(v, w.konst(val(i, v))))
			}
			w.st.Fixed++
			r2, m2 := w.queryOn(1, pc, extra, eqs, true, ms)
			if r2 == rSat {
				r, m = r2, m2
			}
			return r2 == rSat
		}
		rel := m
		for _, c := range []*Model{w.p.m, rel} {
			if c == nil || len(fix) == 0 {
				continue
			}
			if try(func(_ int, v *Term) *big.Int { return c.term(v) }, 500) {
				break
			}
		}
		if r != rSat {
			r, m = w.queryOn(1, pc, extra, nil, true, 200)
		}
		if r == rUnknown && len(fix) > 0 {
			w.st.Guessed++
		guess:
			for _, base := range []int64{1, 1000, 2000000} {
				for _, ratio := range [][]int64{{1, 1, 1}, {3, 1, 2}, {1, 3, 2}, {2, 2, 1}} {
					if try(func(i int, _ *Term) *big.Int { return big.NewInt(base * 2 * ratio[i%3]) }, 200) {
						break guess
					}
				}
			}
		}
		if r == rUnknown {
			w.st.Relaxed++
			tx := time.Now()
			r, m = w.queryOn(1, pc, extra, nil, true, timeoutMs)
			if os.Getenv("VF_HARD") != "" {
				e := &emitter{sb: &strings.Builder{}, set: map[int]bool{}, names: map[string]bool{}}
				x := ""
				for _, f := range pc {
					x += "PC " + e.form(f) + "\n"
				}
				if extra != nil {
					x += "EXTRA " + e.form(extra) + "\n"
				}
				fmt.Fprintf(os.Stderr, "HARD res=%d %dms\n%s%s\n", r, time.Since(tx).Milliseconds(), e.sb.String(), x)
			}
			if r == rUnknown {
				m = nil
			}
		}
	}
	switch r {
	case rSat:
		w.st.Sat++
	case rUnsat:
		w.st.Unsat++
	default:
		w.st.Unknown++
	}
	return r, m
}

// fixVars lists the variables to fix so that the products become linear.
func (w *Worker) fixVars(prods []*Term) []*Term {
	set := map[int]*Term{}
	var walk func(t *Term, to map[int]*Term)
	walk = func(t *Term, to map[int]*Term) {
		switch t.k {
		case kVar:
			to[t.id] = t
		case kLin:
			for _, m := range t.ms {
				walk(m.t, to)
			}
		case kMul, kDiv, kRnd:
			walk(t.a, to)
			walk(t.b, to)
		case kIte:
			walk(t.a, to)
			walk(t.b, to)
		}
	}
	for _, t := range prods {
		pick := t.a
		if t.b.k == kDiv && t.b.b.k != kConst {
			pick = t.b
		} else if !(t.a.k == kDiv && t.a.b.k != kConst) {
			x, y := map[int]*Term{}, map[int]*Term{}
			walk(t.a, x)
			walk(t.b, y)
			if len(y) < len(x) {
				pick = t.b
			}
		}
		walk(pick, set)
	}
	var out []*Term
	for _, v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// lemmas bounds products by the McCormick envelope over the current path's intervals and
// relates quotients with a common divisor.
func (w *Worker) lemmas(p *path, prods []*Term, seen map[int]bool) (out []*Form) {
	put := func(f *Form) {
		if f.k != fTrue {
			out = append(out, f)
		}
	}
	groups := map[int][]*Term{} // divisor -> quotients
	var keys []int
	for _, t := range prods {
		xl, xh := p.bounds(t.a)
		yl, yh := p.bounds(t.b)
		add := func(a, b *big.Int, upper bool) {
			if a == nil || b == nil {
				return
			}
			// (x-a)(y-b) has a known sign: x·y - b·x - a·y + a·b
			g := w.add(t, w.konst(new(big.Int).Mul(a, b)))
			g = w.addScaled(g, t.a, new(big.Int).Neg(b))
			g = w.addScaled(g, t.b, new(big.Int).Neg(a))
			if upper {
				put(w.le0(g))
			} else {
				put(w.le0(w.scale(g, big.NewInt(-1))))
			}
		}
		add(xl, yl, false)
		add(xh, yh, false)
		add(xl, yh, true)
		add(xh, yl, true)
		for _, q := range []*Term{t.a, t.b} {
			if q.k == kDiv && q.b.k != kConst {
				dup := false
				for _, o := range groups[q.b.id] {
					dup = dup || o == q
				}
				if !dup {
					if len(groups[q.b.id]) == 0 {
						keys = append(keys, q.b.id)
					}
					groups[q.b.id] = append(groups[q.b.id], q)
				}
			}
		}
	}
	for _, k := range keys {
		qs := groups[k]
		if len(qs) < 2 {
			continue
		}
		d := qs[0].b
		subsets := [][]*Term{qs}
		if len(qs) > 2 {
			for i := range qs {
				for j := i + 1; j < len(qs); j++ {
					subsets = append(subsets, []*Term{qs[i], qs[j]})
				}
			}
		}
		for _, sub := range subsets {
			x, s := w.konst(bz), w.konst(bz)
			for _, q := range sub {
				x, s = w.add(x, q.a), w.add(s, q)
			}
			kk := w.ratioBound(x, d)
			if kk == nil {
				continue
			}
			low := w.konst(big.NewInt(1 << 60))
			if w.scale(d, kk) == x {
				low = w.konst(new(big.Int).Sub(kk, big.NewInt(int64(len(sub)-1))))
			}
			put(w.le(s, w.konst(kk)))
			if low.c.Cmp(big.NewInt(1<<60)) != 0 {
				put(w.le(low, s))
			}
			// the same multiplied by a common non-negative factor
			for _, t := range prods {
				var y *Term
				if t.a == sub[0] {
					y = t.b
				} else if t.b == sub[0] {
					y = t.a
				} else {
					continue
				}
				if yl, _ := p.bounds(y); yl == nil || yl.Sign() < 0 {
					continue
				}
				ps, all := w.konst(bz), true
				for _, q := range sub {
					m := w.mulAtom(q, y)
					all = all && seen[m.id]
					ps = w.add(ps, m)
				}
				if !all {
					continue
				}
				put(w.le(ps, w.scale(y, kk)))
				if low.c.Cmp(big.NewInt(1<<60)) != 0 {
					put(w.le(w.scale(y, low.c), ps))
				}
			}
		}
	}
	return
}

func (w *Worker) queryOn(i int, pc []*Form, extra *Form, more []*Form, nl bool, timeoutMs int) (res, *Model) {
	s := w.ss[i]
	if s == nil {
		s = w.startSolver(i)
	}
	e := &emitter{sb: &s.buf, relax: s.relax, set: s.defs, names: s.decl}
	// sync
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		fmt.Fprintf(&s.buf, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		w.divs(pc[n])
		x := e.form(pc[n])
		side := strings.Join(e.sides(pc[n], nil), "")
		fmt.Fprintf(&s.buf, "(push 1)\n%s(assert %s)\n", side, x)
		s.stack = append(s.stack, pc[n])
	}
	if s.to != timeoutMs {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", timeoutMs)
		s.to = timeoutMs
	}
	top := extra != nil || len(more) > 0
	if top {
		side, x := "", "true"
		if extra != nil {
			w.divs(extra)
			x = e.form(extra)
			side = strings.Join(e.sides(extra, nil), "")
		}
		for _, f := range more {
			side += "(assert " + e.form(f) + ")\n"
		}
		fmt.Fprintf(&s.buf, "(push 1)\n%s(assert %s)\n", side, x)
	}
	s.vars = append(s.vars, e.vars...)
	s.buf.WriteString("(check-sat)\n")
	r, ok := s.round("")
	if !ok {
		w.warn("solver restart: " + r)
		w.stopOne(i)
		return rUnknown, nil
	}
	var m *Model
	rr := rUnknown
	switch r {
	case "sat":
		rr = rSat
		m = s.getModel()
		if m == nil {
			w.warn("solver restart: model")
			w.stopOne(i)
			return rUnknown, nil
		}
	case "unsat":
		rr = rUnsat
	}
	if top {
		s.buf.WriteString("(pop 1)\n")
	}
	if m != nil && (DebugModels || nl) {
		good := extra == nil || m.form(extra)
		for _, f := range pc {
			good = good && m.form(f)
		}
		if !good {
			if i == 1 || !nl {
				panic("model does not satisfy the constraints")
			}
			return rUnknown, m
		}
	}
	return rr, m
}

var DebugModels = os.Getenv("VF_DEBUG") != ""

func (s *solver) round(_ string) (string, bool) {
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		return err.Error(), false
	}
	if lg := os.Getenv("VF_SMTLOG"); lg != "" {
		if s.log == nil {
			s.log, _ = os.Create(fmt.Sprintf("%s.%d.%v", lg, s.w.n, s.relax))
		}
		s.log.WriteString(s.buf.String())
	}
	s.buf.Reset()
	// watchdog
	done := make(chan struct{})
	go func() {
		select {
		case <-done:
		case <-time.After(time.Duration(s.to)*time.Millisecond*3 + 20*time.Second):
			s.cmd.Process.Kill()
		}
	}()
	defer close(done)
	line, err := s.out.ReadString('\n')
	if err != nil {
		return err.Error(), false
	}
	line = strings.TrimSpace(line)
	if strings.HasPrefix(line, "(error") {
		return line, false
	}
	return line, true
}

func (s *solver) getModel() *Model {
	m := &Model{vals: map[string]*big.Int{}, memo: map[int]*big.Int{}}
	if len(s.vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString("|v " + v.name + "| ")
	}
	sb.WriteString("))\n")
	s.buf.WriteString(sb.String())
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		return nil
	}
	s.buf.Reset()
	txt, ok := readSexp(s.out)
	if !ok {
		return nil
	}
	parseModel(txt, m)
	return m
}

func readSexp(r *bufio.Reader) (string, bool) {
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", false
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				r.ReadString('\n')
				return sb.String(), true
			}
		}
	}
}

func parseModel(txt string, m *Model) {
	// ((|a| 5) (|b| (- 3)))
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			return
		}
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		name := strings.TrimPrefix(txt[i:i+k], "v ")
		i += k + 1
		rest := txt[i:]
		neg := false
		p := 0
		for p < len(rest) && (rest[p] < '0' || rest[p] > '9') {
			if rest[p] == '-' {
				neg = true
			}
			p++
		}
		q := p
		for q < len(rest) && rest[q] >= '0' && rest[q] <= '9' {
			q++
		}
		v, _ := new(big.Int).SetString(rest[p:q], 10)
		if v != nil {
			if neg {
				v.Neg(v)
			}
			m.vals[name] = v
		}
		i += q
	}
}

// oneShot asks other solver configurations about pc ∧ extra.
func (w *Worker) oneShot(pc []*Form, extra *Form, secs int) (res, *Model) {
	t0 := time.Now()
	defer func() { w.st.SolverNs += int64(time.Since(t0)) }()
	w.st.Solver2++
	var sb strings.Builder
	e := &emitter{sb: &sb, set: map[int]bool{}, names: map[string]bool{}}
	var asserts []string
	var side []string
	have := map[int]bool{}
	for _, f := range append(append([]*Form(nil), pc...), extra) {
		if f != nil {
			w.divs(f)
			asserts = append(asserts, e.form(f))
			side = append(side, e.sides(f, have)...)
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(&sb, "(assert %s)\n", a)
	}
	sb.WriteString(strings.Join(side, ""))
	sb.WriteString("(check-sat)\n")
	if len(e.vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range e.vars {
			sb.WriteString("|v " + v.name + "| ")
		}
		sb.WriteString("))\n")
	}
	type ans struct {
		r res
		m *Model
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cfgs := [][]string{
		{"z3-new", "-in", "-smt2"},
		{"cvc5", "--lang=smt2", "--produce-models", "--nl-ext-tplanes", "-"},
		{"z3", "-in", "-smt2", "smt.arith.solver=2"},
	}
	ch := make(chan ans, len(cfgs))
	for _, c := range cfgs {
		c := c
		go func() {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader("(set-option :produce-models true)\n(set-logic ALL)\n" + sb.String())
			out, _ := cmd.Output()
			txt := string(out)
			switch {
			case strings.HasPrefix(txt, "sat"):
				m := &Model{vals: map[string]*big.Int{}, memo: map[int]*big.Int{}}
				parseModel(txt, m)
				ch <- ans{rSat, m}
			case strings.HasPrefix(txt, "unsat"):
				ch <- ans{rUnsat, nil}
			default:
				ch <- ans{rUnknown, nil}
			}
		}()
	}
	for range cfgs {
		a := <-ch
		if a.r == rSat {
			good := true
			for _, f := range pc {
				good = good && a.m.form(f)
			}
			if extra != nil {
				good = good && a.m.form(extra)
			}
			if !good {
				continue
			}
		}
		if a.r != rUnknown {
			return a.r, a.m
		}
	}
	return rUnknown, nil
}
