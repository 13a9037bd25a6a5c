package main

import (
	"fmt"
	"math/big"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/verif/vf"
)

var e18 = math.NewIntWithDecimal(1, 18)

// comparisons of products of a price with amounts, exact
func px(p math.LegacyDec, a math.Int) math.Int { return rawInt(p).Mul(a) }

func maxI(a, b math.Int) math.Int {
	if a.GT(b) {
		return a
	}
	return b
}

func init() {
	prices := []string{"0.0000000000000001", "0.000000000000001", "0.001", "0.9999", "1", "1.5", "12345", "100000000000000000000", "1000000000000000000000"}
	vf.Register(&vf.Harness{
		Name: "poolamt", Props: []string{"C06"},
		Bounds: fmt.Sprintf("a constant product pool with any reserves 1..10^24, asked at every price of %v", prices),
		Funcs:  "BasicPool.BuyAmountOver, SellAmountUnder, Price, HighestBuyPrice, LowestSellPrice",
		Must:   []string{"buys", "sells", "no buy", "no sell"},
		Run: func(t *vf.T) {
			p := dec(prices[t.Choose("price", len(prices))])
			rx, ry := t.Int("rx", 1, vf.Pow10(24)), t.Int("ry", 1, vf.Pow10(24))
			pool := amm.NewBasicPool(rx, ry, math.NewInt(1000))
			if t.Bool("sell") {
				a := pool.SellAmountUnder(p, true)
				q := p
				if q.GT(amm.MaxPoolPrice) {
					q = amm.MaxPoolPrice
				}
				if a.IsPositive() {
					t.Reach("sells")
					t.Check("C06", "sells at most the base reserve", a.LTE(ry))
					t.Check("C06", "selling stops before the pool price passes the order price", px(q, ry.Sub(a)).GTE(rx.Mul(e18)))
				} else {
					t.Reach("no sell")
					t.Check("C06", "no negative sell amount", a.IsZero())
				}
				t.Check("C06", "sells as much as the curve allows", px(q, maxI(ry.Sub(a).SubRaw(2), zero)).LTE(rx.Mul(e18).Add(ry)))
				t.Observe("a", a)
				return
			}
			a := pool.BuyAmountOver(p, true)
			q := p
			if q.LT(amm.MinPoolPrice) {
				q = amm.MinPoolPrice
			}
			if a.IsPositive() {
				t.Reach("buys")
				t.Check("C06", "buys within the quote reserve", px(p, a).LTE(rx.Mul(e18)))
				t.Check("C06", "buying stops before the pool price falls below the order price", px(q, ry).Add(px(p, a)).LTE(rx.Mul(e18)))
			} else {
				t.Reach("no buy")
				t.Check("C06", "no negative buy amount", a.IsZero())
			}
			if a.LT(amm.MaxCoinAmount) {
				t.Check("C06", "buys as much as the curve allows", px(q, ry).Add(px(p, a.AddRaw(2))).Add(ry).GTE(rx.Mul(e18)))
			}
			t.Observe("a", a)
		},
	})

	type rp struct {
		x, y     int64
		min, max string
	}
	rps := []rp{{1000000, 1000000, "0.5", "2"}, {0, 1000000, "1", "1.01"}, {5000000, 0, "0.001", "0.0011"}, {123456789, 17, "100", "1000000000"}, {3, 999999999, "0.000001", "12"}}
	rprices := []string{"0.0000000000000001", "0.0005", "0.00105", "0.7", "1", "1.005", "1.9", "150", "10000000000"}
	vf.Register(&vf.Harness{
		Name: "rangedamt", Props: []string{"C06"},
		Bounds: fmt.Sprintf("ranged pools %v (initial reserves and range), later reserves anything 0..10^15, asked at every price of %v", rps, rprices),
		Funcs:  "amm.CreateRangedPool, NewRangedPool, DeriveTranslation, RangedPool.SetBalances, BuyAmountOver, SellAmountUnder, Price",
		Must:   []string{"buys", "sells", "no buy", "no sell"},
		Run: func(t *vf.T) {
			c := rps[t.Choose("pool", len(rps))]
			p := dec(rprices[t.Choose("price", len(rprices))])
			min, max := dec(c.min), dec(c.max)
			pool := amm.NewRangedPool(in(c.x), in(c.y), in(1000000), min, max)
			rx, ry := t.Int("rx", 0, vf.Pow10(15)), t.Int("ry", 0, vf.Pow10(15))
			t.Assume(rx.IsPositive() || ry.IsPositive())
			tx, ty := pool.Translation()
			pool.SetBalances(rx, ry, false)
			tx2, ty2 := pool.Translation()
			t.Check("C06", "trading keeps the curve", tx.Equal(tx2) && ty.Equal(ty2))
			// virtual reserves, 18 decimals
			vx, vy := rx.Mul(e18).Add(rawInt(tx)), ry.Mul(e18).Add(rawInt(ty))
			if t.Bool("sell") {
				a := pool.SellAmountUnder(p, true)
				t.Observe("a", a)
				q := p
				if q.GT(max) {
					q = max
				}
				if a.LT(ry) {
					t.Check("C06", "sells as much as the curve allows", px(q, vy.Sub(a.AddRaw(2).Mul(e18))).LTE(vx.Mul(e18).Add(vy)))
				}
				if !a.IsPositive() {
					t.Reach("no sell")
					t.Check("C06", "no negative sell amount", a.IsZero())
					return
				}
				t.Reach("sells")
				t.Check("C06", "sells at most the base reserve", a.LTE(ry))
				t.Check("C06", "selling stops before the pool price passes the order price", px(q, vy.Sub(a.Mul(e18))).GTE(vx.Mul(e18)))
				return
			}
			a := pool.BuyAmountOver(p, true)
			t.Observe("a", a)
			q := p
			if q.LT(min) {
				q = min
			}
			if b := a.AddRaw(2); px(p, b).LT(rx.Mul(e18)) {
				t.Check("C06", "buys as much as the curve allows", px(q, vy).Add(px(p, b).Mul(e18)).Add(vy).GTE(vx.Mul(e18)))
			}
			if !a.IsPositive() {
				t.Reach("no buy")
				t.Check("C06", "no negative buy amount", a.IsZero())
				return
			}
			t.Reach("buys")
			t.Check("C06", "buys within the quote reserve", px(p, a).LTE(rx.Mul(e18)))
			t.Check("C06", "buying stops before the pool price falls below the order price", px(q, vy).Add(px(p, a).Mul(e18)).LTE(vx.Mul(e18).Add(e18)))
		},
	})

	near := []powin{{3, 2, 1, "1.3", "1.5"}, {3, 2, 1, "1.5", "1.8"}, {155, 100, 1, "1.4", "1.7"}, {1237, 100, 1, "12", "14"}, {1, 997, 1, "0.00098", "0.0012"}, {1, 1, 1, "0.98", "1.1"}, {1, 1, 2, "0.998", "1.02"}}
	far := []powin{{1, 1, 2, "1.1", "1.3"}, {1, 1, 2, "0.7", "0.9"}, {99, 100, 2, "1.1", "1.3"}, {1237, 100, 1, "9.7", "9.9"}, {1, 997, 1, "0.00098", "0.001"}, {1, 997, 1, "0.0011", "0.0012"}, {5, 3, 3, "1.67", "1.7"}, {5, 3, 3, "1.6", "1.66"}}
	poolOrders("poolorders", near, false, false, false)
	poolOrders("rangedorders", []powin{{3, 2, 1, "1.4", "1.5"}, {3, 2, 1, "1.5", "1.6"}}, false, true, false)
	poolOrders("poolordersfar", far, true, true, false)
	poolOrders("poolordersmany", []powin{{3, 2, 2, "1.4", "1.6"}, {3, 2, 1, "0.9", "2"}, {101, 100, 2, "0.99", "1.1"}}, false, false, true)
}

// a pool with reserves k·a and k·b asked for its orders between lo and hi
type powin struct {
	a, b   int64
	prec   int
	lo, hi string
}

func poolOrders(name string, ws []powin, far, ranged, thorough bool) {
	vf.Register(&vf.Harness{
		Name: name, Props: []string{"C06"}, ThoroughOnly: thorough,
		Bounds: fmt.Sprintf("basic pools with reserves k·a and k·b, and ranged pools over [p/2,2p] with either reserve anything up to 3 times that of k=10^6 (the other of 0, 1%%, 100%%, 150%%) and the price in the window; order windows (a, b, tick precision, lowest, highest) of %v; k anything in 1..10^9 (concrete values when the pool price is outside the window)", ws),
		Funcs:  "amm.PoolOrders, PoolBuyOrders, PoolSellOrders, BuyAmountTo, SellAmountTo, BuyAmountOver, SellAmountUnder, DeriveTranslation, poolOrderPriceGapRatio",
		Must:   []string{"buy orders", "sell orders"},
		Run: func(t *vf.T) {
			c := ws[t.Choose("window", len(ws))]
			prec := c.prec
			var k math.Int
			if far || ranged {
				// beyond the window the amounts go through square roots: the scale is concrete
				k = math.NewInt([]int64{1, 7, 1000, 123457, 1000000007}[t.Choose("scale", 5)])
			} else {
				k = t.Int("k", 1, vf.Pow10(9))
			}
			rx, ry := k.MulRaw(c.a), k.MulRaw(c.b)
			lo, hi := dec(c.lo), dec(c.hi)
			var pool amm.Pool
			p := math.LegacyNewDec(c.a).QuoInt64(c.b)
			switch {
			case far && t.Bool("basic") || !far && !ranged:
				pool = amm.NewBasicPool(rx, ry, in(1000000))
			case far:
				pool = amm.NewRangedPool(rx, ry, in(1000000), p.QuoInt64(2), p.MulInt64(2))
			default:
				// a curve fixed by earlier reserves, any current reserves with the price inside the window
				n := in(1000000)
				pool = amm.NewRangedPool(n.MulRaw(c.a), n.MulRaw(c.b), in(1000000), p.QuoInt64(2), p.MulInt64(2))
				if t.Bool("anyquote") {
					rx, ry = t.Int("rx", 0, n.MulRaw(c.a*3)), n.MulRaw(c.b).MulRaw([]int64{0, 1, 100, 150}[t.Choose("ry", 4)]).QuoRaw(100)
				} else {
					rx, ry = n.MulRaw(c.a).MulRaw([]int64{0, 1, 100, 150}[t.Choose("rx", 4)]).QuoRaw(100), t.Int("ry", 0, n.MulRaw(c.b*3))
				}
				pool.SetBalances(rx, ry, false)
				t.Assume(rx.IsPositive() || ry.IsPositive())
				t.Assume(pool.Price().GTE(lo) && pool.Price().LTE(hi))
				t.SplitQuo(50)
			}
			pp := pool.Price()
			os := amm.PoolOrders(pool, amm.DefaultOrderer, lo, hi, prec)
			cost, sold := zero, zero
			var lastB, lastS math.LegacyDec
			// virtual reserves, 18 decimals
			vx, vy := rx.Mul(e18), ry.Mul(e18)
			if r, ok := pool.(*amm.RangedPool); ok {
				tx, ty := r.Translation()
				vx, vy = vx.Add(rawInt(tx)), vy.Add(rawInt(ty))
			}
			big3 := func(a, b, c math.Int) *big.Int {
				m := new(big.Int).Mul(a.BigInt(), b.BigInt())
				return m.Mul(m, c.BigInt())
			}
			if far && k.GT(in(100000)) {
				// from outside the window the pool first trades up to the point of its curve with the window's price
				first := func(p math.LegacyDec) math.Int {
					if len(os) > 0 && os[0].GetPrice().Equal(p) {
						return os[0].GetAmount()
					}
					return zero
				}
				if pp.GT(hi) {
					a := first(hi)
					cmp := func(a math.Int) int {
						x := maxI(vx.Sub(px(hi, a)), zero)
						return big3(x, x, e18).Cmp(big3(rawInt(hi), vx, vy))
					}
					t.Check("C06", "buys down to the window on the curve", a.IsZero() || cmp(a.SubRaw(1)) >= 0)
					if b := maxI(a, amm.MinCoinAmount).AddRaw(2); px(hi, b).LT(rx.Mul(e18)) {
						t.Check("C06", "buys all the way down to the window", cmp(b) <= 0)
					}
					t.Reach("above")
				}
				if pp.LT(lo) {
					a := first(lo)
					cmp := func(a math.Int) int {
						y := maxI(vy.Sub(a.Mul(e18)), zero)
						return big3(y, y, rawInt(lo)).Cmp(big3(vx, vy, e18))
					}
					t.Check("C06", "sells up to the window on the curve", a.IsZero() || cmp(a.SubRaw(1)) >= 0)
					if b := maxI(a, amm.MinCoinAmount).AddRaw(2); b.LT(ry) {
						t.Check("C06", "sells all the way up to the window", cmp(b) <= 0)
					}
					t.Reach("below")
				}
			}
			paidX, gotY, paidY, gotX := zero, zero, zero, zero
			for i, o := range os {
				p, a := o.GetPrice(), o.GetAmount()
				if o.GetDirection() == amm.Buy {
					paidX, gotY = paidX.Add(px(p, a)), gotY.Add(a.Mul(e18))
				} else {
					paidY, gotX = paidY.Add(a.Mul(e18)), gotX.Add(px(p, a))
				}
				t.Check("C06", "orders carry at least the smallest amount", a.GTE(amm.MinCoinAmount) && a.LTE(amm.MaxCoinAmount))
				t.Check("C06", "order prices are on the grid and in the window", p.GTE(lo) && p.LTE(hi) && amm.PriceToDownTick(p, prec).Equal(p))
				if o.GetDirection() == amm.Buy {
					t.Reach("buy orders")
					t.Check("C06", "buys below the pool price", p.LT(pp))
					t.Check("C06", "each price is used once", lastB.IsNil() || p.LT(lastB))
					t.Eq("C06", "offers the cost of the buy", o.GetOfferCoinAmount(), mulUp(p, a))
					lastB = p
					cost = cost.Add(mulUp(p, a))
				} else {
					t.Reach("sell orders")
					t.Check("C06", "sells above the pool price", p.GT(pp))
					t.Check("C06", "each price is used once", lastS.IsNil() || p.GT(lastS))
					t.Eq("C06", "offers the amount sold", o.GetOfferCoinAmount(), a)
					lastS = p
					sold = sold.Add(a)
				}
				if i < 3 {
					t.Observe(fmt.Sprint("a", i), a)
				}
			}
			if far {
				t.Check("C06", "buying does not lower the pool's value", big3(vx.Sub(paidX), vy.Add(gotY), e18).Cmp(big3(vx, vy, e18)) >= 0)
				t.Check("C06", "selling does not lower the pool's value", big3(vx.Add(gotX), vy.Sub(paidY), e18).Cmp(big3(vx, vy, e18)) >= 0)
			}
			t.Check("C06", "all buys together fit in the quote reserve", cost.LTE(rx))
			t.Check("C06", "all sells together fit in the base reserve", sold.LTE(ry))
			t.Observe("n", len(os))
			rx2, ry2 := pool.Balances()
			t.Check("C06", "asking for orders leaves the pool as it was", rx2.Equal(rx) && ry2.Equal(ry))
		},
	})
}
