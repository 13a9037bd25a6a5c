//go:build !verifsym

package vf

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"cosmossdk.io/math"
)

// T is the harness handle (native replay).
type T struct {
	Env    any
	wit    *Witness
	out    *Outcome
	ci     int
	panicd bool
	exited bool
}

func Symbolic() bool { return false }

func (t *T) Thorough() bool { return t.wit.Tier == "thorough" }

func (t *T) diverge(why string) {
	if t.out.Diverged == "" {
		t.out.Diverged = why
	}
	runtime.Goexit()
}

func (t *T) Int(name string, lo, hi any) math.Int {
	s, ok := t.wit.Vals[name]
	if !ok {
		t.diverge("no value for " + name)
	}
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		t.diverge("bad value for " + name)
	}
	if l := bigOf(lo); l != nil && b.Cmp(l) < 0 {
		t.diverge("below bound: " + name)
	}
	if h := bigOf(hi); h != nil && b.Cmp(h) > 0 {
		t.diverge("above bound: " + name)
	}
	return math.NewIntFromBigInt(b)
}

func (t *T) Choose(name string, n int) int {
	if t.ci >= len(t.wit.Choices) || t.wit.Choices[t.ci].Name != name || t.wit.Choices[t.ci].V >= n {
		t.diverge("choice " + name)
	}
	t.ci++
	return t.wit.Choices[t.ci-1].V
}

func (t *T) Assume(b bool) {
	if !b {
		t.diverge("assumption false")
	}
}

func (t *T) MapOrder(int) {}

func (t *T) SplitQuo(int) {}

func (t *T) Concrete(x math.Int) math.Int { return x }

func (t *T) On(prop string) bool { return t.wit.On == "" || t.wit.On == prop }

func (t *T) Known(string) {}

func (t *T) Reach(string) {}

func (t *T) Check(prop, label string, ok bool) {
	if !ok && t.On(prop) {
		t.out.Failed = append(t.out.Failed, prop+"/"+label)
		runtime.Goexit()
	}
}

func (t *T) Eq(prop, label string, a, b math.Int) { t.Check(prop, label, a.Equal(b)) }

func (t *T) Failf(prop, label, format string, args ...any) {
	if !t.On(prop) {
		return
	}
	t.out.Failed = append(t.out.Failed, prop+"/"+label)
	runtime.Goexit()
}

func (t *T) Observe(name string, v any) {
	s := ""
	switch x := v.(type) {
	case math.Int:
		s = "nil"
		if !x.IsNil() {
			s = x.BigInt().Text(10)
		}
	case math.LegacyDec:
		s = "nil"
		if !x.IsNil() {
			s = x.BigInt().Text(10)
		}
	default:
		s = fmt.Sprint(v)
	}
	t.out.Obs = append(t.out.Obs, name+"="+s)
}

// Replay runs one witness natively.
func Replay(w *Witness) *Outcome {
	o := &Outcome{Harness: w.Harness}
	h := harnesses[w.Harness]
	if h == nil {
		o.Diverged = "no harness"
		return o
	}
	t := &T{wit: w, out: o}
	if h.Setup != nil {
		t.Env = h.Setup()
	}
	done := make(chan struct{})
	finished := false
	go func() {
		defer close(done)
		defer func() {
			if finished {
				return
			}
			if r := recover(); r != nil {
				o.Panic = fmt.Sprint(r)
				if os.Getenv("VF_V") != "" {
					fmt.Fprintf(os.Stderr, "panic: %v\n%s", r, debug.Stack())
				}
				o.Failed = append(o.Failed, "/panic")
			}
		}()
		h.Run(t)
		finished = true
	}()
	<-done
	return o
}

// Main replays witnesses: -replay FILE (one JSON object), or -batch (JSON lines on stdin).
func Main() {
	file := flag.String("replay", "", "")
	debug.SetMaxStack(256 << 20)
	batch := flag.Bool("batch", false, "")
	flag.Parse()
	if *batch {
		sc := bufio.NewScanner(os.Stdin)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		for sc.Scan() {
			var w Witness
			if err := json.Unmarshal(sc.Bytes(), &w); err != nil {
				panic(err)
			}
			fmt.Println(string(mustJSON(Replay(&w))))
		}
		return
	}
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var w Witness
	if err := json.Unmarshal(b, &w); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o := Replay(&w)
	fmt.Println(string(mustJSON(o)))
	if len(o.Failed) > 0 {
		fmt.Println("REPRODUCED:", strings.Join(o.Failed, ", "))
		os.Exit(1)
	}
}
