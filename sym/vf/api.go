// Package vf is the harness API of the verification machinery: a harness is an
// ordinary Go function over *T; the symbolic build (tag verifsym) executes the
// real code with solver terms inside big.Int, the native build executes the
// same function on concrete values (replay).
package vf

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"

	"cosmossdk.io/math"
)

// Harness is one symbolic entry point.
type Harness struct {
	Name   string
	Props  []string // properties whose checks it carries
	Bounds string   // stated bounds
	Funcs  string   // functions executed symbolically
	// Cases > 0 makes the harness start with T.Case in [0,Cases)
	Setup func() any // per worker
	Run   func(t *T)
	// Must lists labels that every complete run must reach (vacuity guard)
	Must []string
	// ThoroughOnly harnesses are skipped on the quick tier
	ThoroughOnly bool
	// Retry: native replay may need several attempts (map iteration order)
	Retry bool
}

var harnesses = map[string]*Harness{}

func Register(h *Harness) {
	if harnesses[h.Name] != nil {
		panic("duplicate harness " + h.Name)
	}
	harnesses[h.Name] = h
}

func Names() []string {
	var ns []string
	for n := range harnesses {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// Witness is a concrete assignment of one path.
type Witness struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Vals    map[string]string `json:"vals"`
	Choices []Choice          `json:"choices"`
	Prop    string            `json:"property,omitempty"`
	Label   string            `json:"label,omitempty"`
	Detail  string            `json:"detail,omitempty"`
	Known   string            `json:"known,omitempty"`
	Obs     []string          `json:"obs,omitempty"`
	// On restricts a native replay to the checks of one property
	On string `json:"on,omitempty"`
}

type Choice struct {
	Name string `json:"n"`
	V    int    `json:"v"`
}

// Outcome is what one native execution of a witness showed.
type Outcome struct {
	Harness  string   `json:"harness"`
	Failed   []string `json:"failed"` // labels of checks that failed
	Panic    string   `json:"panic,omitempty"`
	Diverged string   `json:"diverged,omitempty"`
	Obs      []string `json:"obs"`
}

func bigOf(v any) *big.Int {
	switch x := v.(type) {
	case nil:
		return nil
	case int:
		return big.NewInt(int64(x))
	case int64:
		return big.NewInt(x)
	case string:
		b, ok := new(big.Int).SetString(x, 10)
		if !ok {
			panic("bad bound " + x)
		}
		return b
	case math.Int:
		return x.BigInt()
	case *big.Int:
		return x
	}
	panic(fmt.Sprintf("bad bound %v", v))
}

// Pow10 returns 10^n.
func Pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// Dec returns a symbolic decimal whose raw value (times 10^18) ranges over [lo,hi] raw.
func (t *T) Dec(name string, lo, hi any) math.LegacyDec {
	return math.LegacyNewDecFromBigIntWithPrec(t.Int(name, lo, hi).BigInt(), 18)
}

// ChooseOf forks over a list of labelled options.
func (t *T) Bool(name string) bool { return t.Choose(name, 2) == 1 }

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
