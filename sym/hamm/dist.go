package main

import (
	"fmt"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/verif/vf"
)

// sharing an amount among the orders of one tick
func distHarness(name string, n int, prices []string, max int, concrete []int64, thorough bool) {
	vf.Register(&vf.Harness{
		Name: name, Props: []string{"C02", "C03", "C04"}, ThoroughOnly: thorough,
		Bounds: fmt.Sprintf("%d fresh orders of one side at one price of %v, amounts 1..10^%d (or the listed %v), any distributed amount up to what they can take", n, prices, max, concrete),
		Funcs:  "amm.DistributeOrderAmountToOrders, amm.SortOrders, amm.MatchableAmount, amm.TotalMatchableAmount, amm.TotalAmount, amm.FillOrder",
		Must:   []string{"distributed"},
		Run: func(t *vf.T) {
			p := dec(prices[t.Choose("price", len(prices))])
			dir := amm.Buy
			if t.Bool("sell") {
				dir = amm.Sell
			}
			var os []amm.Order
			var rs []*ord
			prev := 0
			for i := 0; i < n; i++ {
				var amt math.Int
				if concrete != nil {
					prev += t.Choose(fmt.Sprintf("a%d", i), len(concrete)-prev)
					amt = math.NewInt(concrete[prev])
				} else {
					amt = t.Int(fmt.Sprintf("a%d", i), 1, vf.Pow10(max))
				}
				o := newOrd(i+1, dir, p, amt, amm.OfferCoinAmount(dir, p, amt), 1)
				os = append(os, o)
				rs = append(rs, o)
			}
			total := sum(rs, func(o *ord) math.Int { return matchable(o, p) })
			x := t.Int("x", 1, vf.Pow10(max+1))
			t.Assume(x.LTE(total))
			can := map[*ord]math.Int{}
			for _, o := range rs {
				can[o] = matchable(o, p)
			}
			amm.SortOrders(os)
			amm.DistributeOrderAmountToOrders(os, x, p)
			t.Reach("distributed")
			got := sum(rs, func(o *ord) math.Int { return o.matched() })
			t.Eq("C03", "the orders of a tick take exactly the distributed amount", got, x)
			for _, o := range rs {
				t.Check("C02", "no order takes more than it can", o.matched().LTE(can[o]) && !o.matched().IsNegative())
				t.Observe(fmt.Sprintf("m%d", o.id), o.matched())
			}
			if dir == amm.Sell && t.On("C02") {
				// who gets nothing for his coins, and what could the others have taken
				none, could := false, zero
				for _, o := range rs {
					if !o.matched().IsPositive() {
						continue
					}
					if p.MulInt(o.matched()).TruncateInt().IsZero() {
						none = true
					} else {
						could = could.Add(can[o])
					}
				}
				if none {
					t.Reach("sold for nothing")
					t.Check("C02", "no coins are given for nothing while the others can take the amount", could.LT(x))
				}
			}
			if t.On("C04") {
				if concrete != nil {
					all := sum(rs, func(o *ord) math.Int { return o.Amount })
					for _, o := range rs {
						share := x.Mul(o.Amount).Quo(all).SubRaw(1)
						// left out only if it or its share is worth nothing
						worthless := can[o].IsZero() || dir == amm.Sell && p.MulInt(share).LT(math.LegacyOneDec())
						t.Check("C04", "every order gets its proportional share", worthless || o.matched().GTE(share))
					}
				}
				for _, a := range rs {
					for _, b := range rs {
						if a != b && a.Amount.GT(b.Amount) {
							t.Check("C04", "a larger order is never filled by less than a smaller one", a.matched().GTE(b.matched()))
						}
					}
				}
			}
		},
	})
}

func init() {
	distHarness("dist2", 2, []string{"0.3", "0.9", "1", "1.25"}, 9, nil, false)
	distHarness("dist3", 3, []string{"0.0004", "0.3", "0.9", "1", "1.25"}, 6, []int64{1, 2, 3, 4, 11, 1000, 1000003}, false)
	distHarness("dist4", 4, []string{"0.3", "0.9", "1.25"}, 6, []int64{1, 2, 3, 7, 1009}, false)
	distHarness("dist3sym", 3, []string{"0.3", "1.25"}, 4, nil, true)
}
