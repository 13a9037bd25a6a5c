package main

import (
	"fmt"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/verif/vf"
)

// one order, one fill
func init() {
	vf.Register(&vf.Harness{
		Name: "fill", Props: []string{"C02", "C03"},
		Bounds: "one order, limit and trade price from {0.0001,0.5,0.999,1,1.5,9999,1.2345e20} (trade within the limit), amount 1..10^30, any budget, any partially filled state, any fill amount",
		Funcs:  "amm.NewBaseOrder, amm.MatchableAmount, amm.FillOrder, amm.FulfillOrder, amm.OfferCoinAmount",
		Must:   []string{"filled", "refused", "fulfil"},
		Run: func(t *vf.T) {
			ps := []string{"0.0001", "0.5", "0.999", "1", "1.5", "9999", "123450000000000000000"}
			li := t.Choose("limit", len(ps))
			ti := t.Choose("trade", len(ps))
			dir := amm.Buy
			if t.Bool("sell") {
				dir = amm.Sell
			}
			if (dir == amm.Buy && ti > li) || (dir == amm.Sell && ti < li) {
				t.Assume(false)
			}
			lim, p := dec(ps[li]), dec(ps[ti])
			amt := t.Int("amt", 1, vf.Pow10(30))
			need := amm.OfferCoinAmount(dir, lim, amt)
			if dir == amm.Buy {
				t.Eq("C02", "budget of a buy order", need, mulUp(lim, amt))
			} else {
				t.Eq("C02", "budget of a sell order", need, amt)
			}
			if dir == amm.Buy && t.Bool("any budget") {
				need = t.Int("budget", 0, vf.Pow10(52))
			}
			o := newOrd(1, dir, lim, amt, need, 0)
			// earlier fills: open and paid are arbitrary but within the limit
			done := t.Int("done", 0, vf.Pow10(30))
			t.Assume(done.LTE(amt))
			paid := done
			if dir == amm.Buy {
				paid = t.Int("paid", 0, vf.Pow10(52))
				t.Assume(paid.LTE(mulUp(lim, done)))
				t.Assume(paid.LTE(need))
			}
			o.SetOpenAmount(amt.Sub(done))
			o.SetPaidOfferCoinAmount(paid)
			m := amm.MatchableAmount(o, p)
			t.Eq("C02", "matchable amount", m, matchable(o, p))
			x := t.Int("x", 0, vf.Pow10(30))
			if t.Bool("fulfil") {
				x = m
				t.Reach("fulfil")
			} else if x.GT(m) {
				ok := func() (refused bool) {
					defer func() {
						if recover() != nil {
							refused = true
						}
					}()
					amm.FillOrder(o, x, p)
					return
				}()
				t.Reach("refused")
				t.Check("C02", "filling beyond the matchable amount is refused", ok)
				return
			}
			var d math.Int
			if x.Equal(m) {
				d = amm.FulfillOrder(o, p)
			} else {
				d = amm.FillOrder(o, x, p)
			}
			t.Reach("filled")
			t.Eq("C02", "open amount falls by the fill", o.GetOpenAmount(), amt.Sub(done).Sub(x))
			if dir == amm.Buy {
				t.Eq("C02", "buyer pays the price rounded up", o.PaidOfferCoinAmount.Sub(paid), mulUp(p, x))
				t.Eq("C02", "buyer receives the fill", o.ReceivedDemandCoinAmount, x)
				t.Check("C02", "within budget", o.PaidOfferCoinAmount.LTE(need))
				t.Eq("C03", "quote difference of a buy", d, mulUp(p, x))
			} else {
				t.Eq("C02", "seller pays the fill", o.PaidOfferCoinAmount.Sub(paid), x)
				t.Eq("C02", "seller receives the price rounded down", o.ReceivedDemandCoinAmount, mulDown(p, x))
				t.Eq("C03", "quote difference of a sell", d, mulDown(p, x).Neg())
			}
		},
	})
}

type book struct {
	buys, sells, all []*ord
	last             math.LegacyDec
}

type scenario struct {
	name     string
	grids    [][]string // price grid alternatives, ascending
	lasts    []int      // indices into the grid for the last price
	nb, ns   int
	batches  bool
	max      int
	fixed    []int // price of each order instead of all possibilities
	extra    bool  // budgets may exceed the cost at the limit
	thorough bool
	props    []string
}

func (s scenario) build(t *vf.T) *book {
	b := &book{}
	grid := s.grids[0]
	if len(s.grids) > 1 {
		grid = s.grids[t.Choose("grid", len(s.grids))]
	}
	b.last = dec(grid[s.lasts[t.Choose("last", len(s.lasts))]])
	id := 0
	add := func(dir amm.OrderDirection, name string, prev int) int {
		// prices in non-increasing (buy) / non-decreasing (sell) order are enough up to renaming,
		// insertion order is varied separately
		var i, pi int
		if s.fixed != nil {
			pi = s.fixed[id]
		} else {
			i = prev + t.Choose(name+".price", len(grid)-prev)
			pi = i
			if dir == amm.Buy {
				pi = len(grid) - 1 - i
			}
		}
		p := dec(grid[pi])
		amt := t.Int(name+".amt", 1, vf.Pow10(s.max))
		off := amt
		if dir == amm.Buy {
			off = mulUp(p, amt)
			if s.extra {
				off = off.Add(t.Int(name+".extra", 0, vf.Pow10(s.max)))
			}
		}
		var batch uint64
		if s.batches {
			batch = uint64(1 + t.Choose(name+".batch", 2))
		}
		id++
		o := newOrd(id, dir, p, amt, off, batch)
		b.all = append(b.all, o)
		if dir == amm.Buy {
			b.buys = append(b.buys, o)
		} else {
			b.sells = append(b.sells, o)
		}
		return i
	}
	prev := 0
	for i := 0; i < s.nb; i++ {
		prev = add(amm.Buy, fmt.Sprintf("b%d", i), prev)
	}
	prev = 0
	for i := 0; i < s.ns; i++ {
		prev = add(amm.Sell, fmt.Sprintf("s%d", i), prev)
	}
	return b
}

func (b *book) orderbook(t *vf.T) *amm.OrderBook {
	os := b.all
	if t.Bool("reversed") {
		os = nil
		for i := len(b.all) - 1; i >= 0; i-- {
			os = append(os, b.all[i])
		}
	}
	ob := amm.NewOrderBook()
	for _, o := range os {
		ob.AddOrder(o)
	}
	return ob
}

// common safety and conservation checks after matching
func (b *book) check(t *vf.T, mp math.LegacyDec, diff math.Int, matched bool) {
	fills := int64(0)
	for _, o := range b.all {
		t.Check("C02", "open amount within the order", !o.GetOpenAmount().IsNegative() && o.GetOpenAmount().LTE(o.Amount))
		t.Check("C02", "never pays more than the budget", o.PaidOfferCoinAmount.LTE(o.OfferCoinAmount) && !o.PaidOfferCoinAmount.IsNegative())
		if o.Direction == amm.Buy {
			t.Eq("C02", "buyer receives what was filled", o.ReceivedDemandCoinAmount, o.matched())
			// each fill rounds up by less than one unit
			if o.fills <= 1 {
				t.Check("C02", "buyer never pays above the limit", o.PaidOfferCoinAmount.LTE(mulUp(o.Price, o.ReceivedDemandCoinAmount)))
			} else {
				t.Check("C02", "buyer never pays above the limit (several fills)", o.PaidOfferCoinAmount.LTE(mulUp(o.Price, o.ReceivedDemandCoinAmount).AddRaw(o.fills-1)))
			}
		} else {
			t.Eq("C02", "seller pays what was filled", o.PaidOfferCoinAmount, o.matched())
			n := o.fills
			if n < 1 {
				n = 1
			}
			t.Check("C02", "seller never receives below the limit", o.ReceivedDemandCoinAmount.GTE(mulDown(o.Price, o.PaidOfferCoinAmount).SubRaw(n-1)))
			if o.Price.GTE(math.LegacyOneDec()) {
				t.Check("C02", "a fill brings the seller something", o.PaidOfferCoinAmount.IsZero() || o.ReceivedDemandCoinAmount.IsPositive())
			}
		}
		fills += o.fills
	}
	t.Eq("C03", "base bought equals base sold", sum(b.buys, func(o *ord) math.Int { return o.ReceivedDemandCoinAmount }), sum(b.sells, func(o *ord) math.Int { return o.PaidOfferCoinAmount }))
	q := sum(b.buys, func(o *ord) math.Int { return o.PaidOfferCoinAmount }).Sub(sum(b.sells, func(o *ord) math.Int { return o.ReceivedDemandCoinAmount }))
	t.Check("C03", "sellers never receive more quote than buyers pay", !q.IsNegative())
	t.Check("C03", "rounding surplus is below one unit per fill", q.LTE(math.NewInt(fills)))
	if !diff.IsNil() {
		t.Eq("C03", "reported quote difference", diff, q)
	}
	if !matched {
		t.Check("C03", "nothing moves without a match", fills == 0)
	} else {
		t.Reach("matched")
		t.Check("C05", "a match fills something", fills > 0)
		if t.On("C05") {
			t.Check("C05", "match price is positive", mp.IsPositive())
		}
	}
}

// priority: a better priced order is exhausted before a worse one trades; at one price the older batch first
func (b *book) priority(t *vf.T, prices ...math.LegacyDec) {
	dust := func(o *ord) bool { // nothing of o can trade at any price it could have traded at
		for _, p := range prices {
			if (o.Direction == amm.Buy && p.LTE(o.Price) || o.Direction == amm.Sell && p.GTE(o.Price)) && matchable(o, p).IsPositive() {
				return false
			}
		}
		return true
	}
	for _, side := range [][]*ord{b.buys, b.sells} {
		for _, x := range side {
			for _, y := range side {
				if x == y || y.fills == 0 {
					continue
				}
				better := x.Direction == amm.Buy && x.Price.GT(y.Price) || x.Direction == amm.Sell && x.Price.LT(y.Price)
				older := x.Price.Equal(y.Price) && x.batch != 0 && (y.batch == 0 || x.batch < y.batch)
				if better {
					t.Check("C04", "better price first", dust(x))
				} else if older {
					t.Check("C04", "older batch first", dust(x))
				}
			}
		}
	}
}

func matchHarness(s scenario) *vf.Harness {
	return &vf.Harness{
		Name: s.name, Props: s.props, ThoroughOnly: s.thorough,
		Bounds: fmt.Sprintf("%d buy and %d sell orders on price grids %v, last price anywhere on the grid, amounts 1..10^%d, both insertion orders, batches %v, excess budgets %v", s.nb, s.ns, s.grids, s.max, s.batches, s.extra),
		Funcs:  "amm.NewOrderBook, OrderBook.AddOrder, OrderBook.Match, MatchAtSinglePrice, FindMatchableAmountAtSinglePrice, PriceDirection, DistributeOrderAmountToTick, DistributeOrderAmountToOrders, FillOrder, FulfillOrders, GroupOrdersByBatchId, SortOrders",
		Must:   []string{"matched"},
		Run: func(t *vf.T) {
			b := s.build(t)
			ob := b.orderbook(t)
			// demand and supply around the last price
			z := func(os []*ord, f func(*ord) bool) math.Int {
				return sum(os, func(o *ord) math.Int {
					if f(o) && matchable(o, o.Price).IsPositive() {
						return matchable(o, b.last)
					}
					return zero
				})
			}
			var bOver, bAt, sUnder, sAt math.Int
			if t.On("C05") {
				bOver = z(b.buys, func(o *ord) bool { return o.Price.GT(b.last) })
				bAt = z(b.buys, func(o *ord) bool { return o.Price.Equal(b.last) })
				sUnder = z(b.sells, func(o *ord) bool { return o.Price.LT(b.last) })
				sAt = z(b.sells, func(o *ord) bool { return o.Price.Equal(b.last) })
			}
			if t.On("C05") {
				want := amm.PriceStaying
				if bOver.GT(sAt.Add(sUnder)) {
					want = amm.PriceIncreasing
				} else if sUnder.GT(bAt.Add(bOver)) {
					want = amm.PriceDecreasing
				}
				t.Check("C05", "the direction follows the side in excess at the last price", ob.PriceDirection(b.last) == want)
			}
			mp, diff, matched := ob.Match(b.last)
			b.check(t, mp, diff, matched)
			t.Observe("matched", matched)
			for _, o := range b.all {
				t.Observe(fmt.Sprintf("open%d", o.id), o.GetOpenAmount())
				t.Observe(fmt.Sprintf("paid%d", o.id), o.PaidOfferCoinAmount)
				t.Observe(fmt.Sprintf("recv%d", o.id), o.ReceivedDemandCoinAmount)
			}
			if t.On("C05") && matched {
				switch {
				case bOver.GT(sAt.Add(sUnder)):
					t.Reach("up")
					t.Check("C05", "excess demand never lowers the price", mp.GTE(b.last))
				case sUnder.GT(bAt.Add(bOver)):
					t.Reach("down")
					t.Check("C05", "excess supply never raises the price", mp.LTE(b.last))
				default:
					t.Reach("staying")
					t.Check("C05", "balanced book trades at the last price", mp.Equal(b.last))
				}
			}
			if t.On("C05") {
				for _, x := range b.buys {
					for _, y := range b.sells {
						if x.Price.GTE(y.Price) {
							for _, p := range []math.LegacyDec{x.Price, y.Price} {
								t.Check("C05", "no executable pair of orders is left", matchable(x, p).IsZero() || matchable(y, p).IsZero())
							}
						}
					}
				}
			}
			if t.On("C04") && matched {
				prices := []math.LegacyDec{b.last}
				for _, o := range b.all {
					prices = append(prices, o.Price)
				}
				_ = prices
				b.priority(t, b.last, mp)
			}
		},
	}
}

func init() {
	up := []string{"1", "1.1", "1.25"}
	low := []string{"0.0009", "0.001", "0.0012"}
	mid := []string{"0.9", "1.2"}
	big := []string{"99", "12345"}
	all := []string{"C02", "C03", "C04", "C05"}
	safe := []string{"C02", "C03"}
	last := []int{0, 1, 2}
	reg := func(s scenario) { vf.Register(matchHarness(s)) }
	reg(scenario{name: "match11", grids: [][]string{up, {"1", "99", "12345"}}, lasts: last, nb: 1, ns: 1, max: 18, extra: true, props: all})
	reg(scenario{name: "match11low", grids: [][]string{low, {"0.5", "0.9", "1.2"}}, lasts: last, nb: 1, ns: 1, max: 18, extra: true, props: safe})
	reg(scenario{name: "match21", grids: [][]string{up}, lasts: []int{0, 1, 2}, nb: 2, ns: 1, max: 9, props: all})
	reg(scenario{name: "match12", grids: [][]string{up}, lasts: []int{0, 1, 2}, nb: 1, ns: 2, max: 9, props: all})
	reg(scenario{name: "match21b", grids: [][]string{{"1", "1.25"}}, lasts: []int{0, 1}, nb: 2, ns: 1, max: 9, batches: true, props: all})
	reg(scenario{name: "match12b", grids: [][]string{{"1", "1.25"}}, lasts: []int{0, 1}, nb: 1, ns: 2, max: 9, batches: true, props: all})
	reg(scenario{name: "match21low", grids: [][]string{{"0.0009", "0.0012"}, mid}, lasts: []int{0, 1}, nb: 2, ns: 1, max: 9, props: safe})
	reg(scenario{name: "match21tiny", grids: [][]string{{"0.0001", "0.001", "0.019", "0.02"}}, lasts: []int{0, 1}, fixed: []int{3, 2, 1}, nb: 2, ns: 1, max: 18, props: safe})
	reg(scenario{name: "match12tiny", grids: [][]string{{"0.01", "0.019", "0.02", "0.3"}}, lasts: []int{0, 2, 3}, fixed: []int{3, 0, 1}, nb: 1, ns: 2, max: 18, props: safe})
	reg(scenario{name: "match22tiny", grids: [][]string{{"0.01", "0.019", "0.02", "0.3"}}, lasts: []int{0, 2, 3}, fixed: []int{3, 2, 0, 1}, nb: 2, ns: 2, max: 18, props: safe})
	reg(scenario{name: "match12low", grids: [][]string{{"0.0009", "0.0012"}, mid}, lasts: []int{0, 1}, nb: 1, ns: 2, max: 9, batches: true, props: safe})
	reg(scenario{name: "match22", grids: [][]string{{"1", "1.25"}}, lasts: []int{0, 1}, nb: 2, ns: 2, max: 9, props: all})
	reg(scenario{name: "match22low", grids: [][]string{mid}, lasts: []int{0, 1}, nb: 2, ns: 2, max: 9, props: safe})
	reg(scenario{name: "match22far", grids: [][]string{{"1", "99", "12345"}}, lasts: last, nb: 2, ns: 2, max: 9, props: all, thorough: true})
	reg(scenario{name: "match31", grids: [][]string{{"1", "1.25"}}, lasts: []int{0, 1}, nb: 3, ns: 1, max: 9, props: all, thorough: true})
	reg(scenario{name: "match13", grids: [][]string{{"1", "1.25"}}, lasts: []int{0, 1}, nb: 1, ns: 3, max: 9, props: all, thorough: true})
	reg(scenario{name: "match13low", grids: [][]string{mid}, lasts: []int{0, 1}, nb: 1, ns: 3, max: 9, batches: true, props: safe, thorough: true})
	reg(scenario{name: "match32", grids: [][]string{{"1", "1.25"}}, lasts: []int{0, 1}, nb: 3, ns: 2, max: 6, props: all, thorough: true})
	_ = big
}
