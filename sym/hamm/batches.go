package main

import (
	"fmt"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/verif/vf"
)

// several orders of one side at one price, in up to three batches, against one order of the other side
func batchesHarness(name string, n int, amts []int64, prices []string, thorough bool) {
	vf.Register(&vf.Harness{
		Name: name, Props: []string{"C02", "C03", "C04", "C05"}, ThoroughOnly: thorough,
		Bounds: fmt.Sprintf("%d orders of one side at one price of %v, each in batch 1, 2 or without a batch (as pool orders), amounts from %v in any arrangement, against one order of any amount 1..10^9 on the other side; with and without a previous price", n, prices, amts),
		Funcs:  "amm.NewOrderBook, OrderBook.AddOrder, OrderBook.Match, OrderBook.MatchAtSinglePrice, FindMatchableAmountAtSinglePrice, PriceDirection, DistributeOrderAmountToTick, DistributeOrderAmountToOrders, GroupOrdersByBatchId, SortOrders, FillOrder, FulfillOrders",
		Must:   []string{"matched", "part"},
		Run: func(t *vf.T) {
			p := dec(prices[t.Choose("price", len(prices))])
			dir, opp := amm.Buy, amm.Sell
			if t.Bool("sell") {
				dir, opp = amm.Sell, amm.Buy
			}
			b := &book{last: p}
			ob := amm.NewOrderBook()
			mk := func(i int, d amm.OrderDirection, a math.Int, batch uint64) *ord {
				off := a
				if d == amm.Buy {
					off = mulUp(p, a)
				}
				o := newOrd(i, d, p, a, off, batch)
				ob.AddOrder(o)
				b.all = append(b.all, o)
				if d == amm.Buy {
					b.buys = append(b.buys, o)
				} else {
					b.sells = append(b.sells, o)
				}
				return o
			}
			var os []*ord
			for i := 0; i < n; i++ {
				a := math.NewInt(amts[t.Choose(fmt.Sprint("amount", i), len(amts))])
				os = append(os, mk(i+1, dir, a, uint64(t.Choose(fmt.Sprint("batch", i), 3))))
			}
			x := t.Int("x", 1, vf.Pow10(9))
			c := mk(n+1, opp, x, 1)
			var mp math.LegacyDec
			var diff math.Int
			var matched bool
			if t.Bool("first") {
				mp = p
				diff, matched = ob.MatchAtSinglePrice(p)
			} else {
				mp, diff, matched = ob.Match(p)
			}
			b.check(t, mp, diff, matched)
			if !matched {
				return
			}
			if t.On("C05") {
				t.Check("C05", "the only price there is", mp.Equal(p))
				left := false
				for _, o := range os {
					left = left || matchable(o, p).IsPositive()
				}
				t.Check("C05", "no executable pair of orders is left", !left || matchable(c, p).IsZero())
			}
			for _, o := range os {
				t.Observe(fmt.Sprint("filled", o.id), o.matched())
				if o.matched().IsPositive() && o.GetOpenAmount().IsPositive() {
					t.Reach("part")
				}
			}
			if !t.On("C04") {
				return
			}
			b.priority(t, p)
			for _, a := range os {
				for _, o := range os {
					if a != o && a.batch == o.batch && a.Amount.GT(o.Amount) {
						t.Check("C04", "a larger order is never filled by less than a smaller one", a.matched().GTE(o.matched()))
					}
				}
			}
		},
	})
}

func init() {
	batchesHarness("batches3", 3, []int64{7, 300}, []string{"1"}, false)
	batchesHarness("batches3all", 3, []int64{2, 7, 300}, []string{"1", "12.5"}, true)
	batchesHarness("batches4", 4, []int64{1, 10, 1001}, []string{"1", "1.25"}, true)
}
