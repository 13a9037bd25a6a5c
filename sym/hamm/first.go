package main

import (
	"fmt"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/verif/vf"
)

// the first batch of a pair: no previous price, a single clearing price is searched on the grid
func firstHarness(s scenario, prec int) {
	vf.Register(&vf.Harness{
		Name: s.name, Props: s.props, ThoroughOnly: s.thorough,
		Bounds: fmt.Sprintf("%d buy and %d sell orders on price grids %v, no previous price, tick precision %d, amounts 1..10^%d, both insertion orders, batches %v", s.nb, s.ns, s.grids, prec, s.max, s.batches),
		Funcs:  "amm.FindMatchPrice, OrderBook.MakeView, OrderBookView.BuyAmountOver, SellAmountUnder, HighestBuyPrice, LowestSellPrice, MultipleOrderViews, OrderBook.MatchAtSinglePrice, FindMatchableAmountAtSinglePrice",
		Must:   []string{"matched", "no price"},
		Run: func(t *vf.T) {
			s.lasts = []int{0}
			b := s.build(t)
			ob := b.orderbook(t)
			// demand at or above / supply at or below a price, orders worth nothing left out
			over := func(p math.LegacyDec, strict bool) math.Int {
				return sum(b.buys, func(o *ord) math.Int {
					if o.Price.GT(p) || !strict && o.Price.Equal(p) {
						return matchable(o, o.Price)
					}
					return zero
				})
			}
			under := func(p math.LegacyDec, strict bool) math.Int {
				return sum(b.sells, func(o *ord) math.Int {
					if o.Price.LT(p) || !strict && o.Price.Equal(p) {
						return matchable(o, o.Price)
					}
					return zero
				})
			}
			crossing := false
			if t.On("C05") {
				for _, x := range b.buys {
					for _, y := range b.sells {
						if x.Price.GTE(y.Price) && matchable(x, x.Price).IsPositive() && matchable(y, y.Price).IsPositive() {
							crossing = true
						}
					}
				}
			}
			ov := amm.OrderView(ob.MakeView())
			if s.nb+s.ns == 2 && t.Bool("multiple") {
				ov = amm.MultipleOrderViews{amm.NewOrderBook().MakeView(), ov}
			}
			p, found := amm.FindMatchPrice(ov, prec)
			t.Observe("found", found)
			if t.On("C05") {
				t.Check("C05", "a clearing price is found exactly when orders cross", found == crossing)
			}
			if !found {
				t.Reach("no price")
				return
			}
			if t.On("C05") {
				t.Check("C05", "the clearing price is on the grid", amm.PriceToDownTick(p, prec).Equal(p))
				t.Check("C05", "demand above the clearing price is covered by supply up to it", over(p, true).LTE(under(p, false)))
				t.Check("C05", "supply below the clearing price is covered by demand from it", under(p, true).LTE(over(p, false)))
				t.Check("C05", "something trades at the clearing price", over(p, false).IsPositive() && under(p, false).IsPositive())
			}
			t.Observe("price", p)
			// what can trade at p, before matching
			vb := sum(b.buys, func(o *ord) math.Int {
				if o.Price.GTE(p) {
					return matchable(o, p)
				}
				return zero
			})
			vs := sum(b.sells, func(o *ord) math.Int {
				if o.Price.LTE(p) {
					return matchable(o, p)
				}
				return zero
			})
			diff, matched := ob.MatchAtSinglePrice(p)
			b.check(t, p, diff, matched)
			t.Observe("matched", matched)
			for _, o := range b.all {
				t.Observe(fmt.Sprintf("open%d", o.id), o.GetOpenAmount())
			}
			if t.On("C05") && p.GTE(math.LegacyOneDec()) {
				v := vb
				if vs.LT(v) {
					v = vs
				}
				t.Check("C05", "the whole volume available at the clearing price trades", sum(b.buys, func(o *ord) math.Int { return o.matched() }).Equal(v))
			}
			if t.On("C02") && matched {
				for _, o := range b.all {
					t.Check("C02", "one price for everyone", o.fills <= 1)
					if o.fills > 0 {
						if o.Direction == amm.Buy {
							t.Eq("C02", "buyers pay the common price", o.PaidOfferCoinAmount, mulUp(p, o.matched()))
						} else {
							t.Eq("C02", "sellers receive the common price", o.ReceivedDemandCoinAmount, mulDown(p, o.matched()))
						}
					}
				}
			}
			if t.On("C04") && matched {
				b.priority(t, p)
			}
		},
	})
}

func init() {
	up := []string{"1", "1.1", "1.3"}
	all := []string{"C02", "C03", "C04", "C05"}
	safe := []string{"C02", "C03"}
	firstHarness(scenario{name: "first11", grids: [][]string{up, {"1", "99", "12000"}}, nb: 1, ns: 1, max: 18, props: all}, 1)
	firstHarness(scenario{name: "first11low", grids: [][]string{{"0.0009", "0.001", "0.0012"}, {"0.5", "0.9", "1.2"}}, nb: 1, ns: 1, max: 18, props: safe}, 1)
	firstHarness(scenario{name: "first21", grids: [][]string{up}, nb: 2, ns: 1, max: 9, props: all}, 1)
	firstHarness(scenario{name: "first12", grids: [][]string{up}, nb: 1, ns: 2, max: 9, props: all}, 1)
	firstHarness(scenario{name: "first12b", grids: [][]string{{"1", "1.3"}}, nb: 1, ns: 2, max: 9, batches: true, props: all}, 1)
	firstHarness(scenario{name: "first21b", grids: [][]string{{"1", "1.3"}}, nb: 2, ns: 1, max: 9, batches: true, props: all}, 1)
	firstHarness(scenario{name: "first22", grids: [][]string{up}, nb: 2, ns: 2, max: 9, props: all, thorough: true}, 2)
}
