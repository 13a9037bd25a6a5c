package main

import (
	"fmt"
	"math/big"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/verif/vf"
)

func raw(n *big.Int) math.LegacyDec { return math.LegacyNewDecFromBigIntWithPrec(n, 18) }
func rawInt(d math.LegacyDec) math.Int {
	return math.NewIntFromBigInt(d.BigInt())
}

// decade forks over the number of digits of the raw price and returns a symbolic price with that
// many digits, plus the grid gap there
func decade(t *vf.T, prec int, digits []int) (p math.LegacyDec, lo, hi, gap math.Int) {
	d := digits[t.Choose("digits", len(digits))]
	if d < prec+1 {
		t.Assume(false)
	}
	lo = math.NewIntFromBigInt(vf.Pow10(d - 1))
	hi = math.NewIntFromBigInt(vf.Pow10(d))
	gap = math.NewIntFromBigInt(vf.Pow10(d - 1 - prec))
	return t.Dec("price", lo, hi.SubRaw(1)), lo, hi, gap
}

func seq(a, b, step int) (r []int) {
	for i := a; i <= b; i += step {
		r = append(r, i)
	}
	return
}

func tickHarness(name string, precs, digits []int, thorough bool) {
	vf.Register(&vf.Harness{
		Name: name, Props: []string{"C01"}, ThoroughOnly: thorough,
		Bounds: fmt.Sprintf("tick precisions %v, every price whose raw value has %v decimal digits (18 decimals)", precs, digits),
		Funcs:  "amm.PriceToDownTick, amm.PriceToUpTick, amm.UpTick, amm.DownTick, amm.TickGap, TickPrecision methods",
		Must:   []string{"on tick", "off tick"},
		Run: func(t *vf.T) {
			prec := precs[t.Choose("prec", len(precs))]
			p, lo, hi, gap := decade(t, prec, digits)
			r := rawInt(p)
			tp := amm.TickPrecision(prec)
			d, u := rawInt(amm.PriceToDownTick(p, prec)), rawInt(tp.PriceToUpTick(p))
			// the grid inside the decade is lo, lo+gap, ..., hi
			q := r.Quo(gap)
			t.Eq("C01", "rounding down gives the greatest grid price not above", d, q.Mul(gap))
			on := q.Mul(gap).Equal(r)
			want := q.Mul(gap)
			if !on {
				want = want.Add(gap)
			}
			t.Eq("C01", "rounding up gives the least grid price not below", u, want)
			next := rawInt(tp.UpTick(p))
			t.Eq("C01", "next grid price", next, q.Mul(gap).Add(gap))
			t.Check("C01", "next grid price stays in the decade or starts the next", next.LTE(hi))
			if on {
				t.Reach("on tick")
				prev := rawInt(tp.DownTick(p))
				if r.Equal(lo) {
					if lo.GT(math.NewIntFromBigInt(vf.Pow10(prec))) {
						t.Reach("power of ten")
						t.Eq("C01", "grid price before a power of ten", prev, lo.Sub(gap.QuoRaw(10)))
					}
				} else {
					t.Eq("C01", "previous grid price", prev, r.Sub(gap))
				}
				if !r.Equal(lo) {
					t.Eq("C01", "next of previous is the tick itself", rawInt(amm.UpTick(raw(prev.BigInt()), prec)), r)
				}
				t.Eq("C01", "previous of next is the tick itself", rawInt(amm.DownTick(raw(next.BigInt()), prec)), r)
			} else {
				t.Reach("off tick")
				t.Eq("C01", "previous grid price off the grid", rawInt(tp.DownTick(p)), d)
			}
			t.Eq("C01", "tick gap", rawInt(tp.TickGap(p)), gap)
			t.Observe("d", d)
			t.Observe("u", u)
		},
	})
}

func init() {
	tickHarness("tick", []int{1, 3, 4, 6}, append(seq(2, 44, 1), 60, 75), false)
	vf.Register(&vf.Harness{
		Name: "tickindex", Props: []string{"C01"},
		Bounds: "tick precision 1 (and 2 on the thorough tier), every price with 2..40 raw digits (every third count on the quick tier)",
		Funcs:  "amm.TickToIndex, amm.TickFromIndex, amm.RoundTickIndex, amm.RoundPrice, amm.PriceToDownTick",
		Must:   []string{"rounded", "exact"},
		Run: func(t *vf.T) {
			prec := 1
			ds := []int{2, 3, 6, 18, 19, 20, 33, 40}
			if t.Thorough() {
				prec += t.Choose("prec", 2)
				ds = seq(2, 40, 2)
			}
			t.SplitQuo(1000)
			p, lo, hi, gap := decade(t, prec, ds)
			tick := amm.PriceToDownTick(p, prec)
			i := amm.TickToIndex(tick, prec)
			t.Check("C01", "index is not negative", i >= 0)
			t.Eq("C01", "index round trip", rawInt(amm.TickFromIndex(i, prec)), rawInt(tick))
			t.Eq("C01", "consecutive indices are consecutive ticks", rawInt(amm.TickFromIndex(i+1, prec)), rawInt(amm.UpTick(tick, prec)))
			t.Check("C01", "index of the next tick", amm.TickToIndex(amm.UpTick(tick, prec), prec) == i+1)
			r := amm.RoundPrice(p, prec)
			if p.Equal(tick) {
				t.Reach("exact")
				t.Eq("C01", "rounding keeps a grid price", rawInt(r), rawInt(p))
			} else {
				t.Reach("rounded")
				// the neighbour with an even position on the grid
				q := rawInt(tick).Quo(gap)
				if q.ModRaw(2).IsZero() {
					t.Eq("C01", "rounding picks the even neighbour below", rawInt(r), rawInt(tick))
				} else {
					t.Eq("C01", "rounding picks the even neighbour above", rawInt(r), rawInt(tick).Add(gap))
				}
			}
			_, _ = lo, hi
		},
	})
	vf.Register(&vf.Harness{
		Name: "tickends", Props: []string{"C01"},
		Bounds: "tick precisions 0..8, the two ends of the grid; concrete",
		Funcs:  "amm.HighestTick, amm.LowestTick, amm.TickToIndex, amm.TickFromIndex",
		Must:   []string{"ends"},
		Run: func(t *vf.T) {
			prec := t.Choose("prec", 9)
			l, h := amm.LowestTick(prec), amm.HighestTick(prec)
			t.Check("C01", "lowest tick has index 0", amm.TickToIndex(l, prec) == 0)
			t.Eq("C01", "lowest tick value", rawInt(l), math.NewIntFromBigInt(vf.Pow10(prec)))
			t.Check("C01", "highest tick is on the grid", amm.PriceToDownTick(h, prec).Equal(h))
			t.Check("C01", "highest tick round trip", amm.TickFromIndex(amm.TickToIndex(h, prec), prec).Equal(h))
			t.Check("C01", "highest tick leaves head room", h.BigInt().BitLen() <= 300)
			t.Check("C01", "highest tick is not far below the largest price", amm.UpTick(h, prec).BigInt().BitLen() > 300)
			t.Reach("ends")
		},
	})
}
