package main

import (
	"fmt"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/keeper"
	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// mkPool creates a pool with the given reserves; kind 1 basic, 2 ranged.
func (r *run) mkPool(pairID uint64, kind int, rx, ry int64, lo, hi, init string) types.Pool {
	p := r.pair(pairID)
	c := addr(800 + int(pairID))
	cs := sdk.NewCoins(sdk.NewInt64Coin(p.QuoteCoinDenom, rx), sdk.NewInt64Coin(p.BaseCoinDenom, ry))
	r.fund(c, r.k.GetPoolCreationFee(r.ctx)...)
	r.fund(c, cs...)
	var pool types.Pool
	var err error
	if kind == 1 {
		pool, err = r.k.CreatePool(r.ctx, types.NewMsgCreatePool(c, pairID, cs))
	} else {
		pool, err = r.k.CreateRangedPool(r.ctx, types.NewMsgCreateRangedPool(c, pairID, cs, dec(lo), dec(hi), dec(init)))
	}
	r.must(err)
	return pool
}

// spec of one user order in a batch harness
type uo struct {
	dir   types.OrderDirection
	price string
}

func (r *run) invariants(prop, when string) {
	for _, iv := range []struct {
		n string
		f sdk.Invariant
	}{{"deposit escrow", keeper.DepositCoinsEscrowInvariant(r.k)}, {"pool coin escrow", keeper.PoolCoinEscrowInvariant(r.k)}, {"offer escrow", keeper.RemainingOfferCoinEscrowInvariant(r.k)},
		{"pool status", keeper.PoolStatusInvariant(r.k)}, {"mm count", keeper.NumMMOrdersInvariant(r.k)}} {
		_, broken := iv.f(r.ctx)
		r.t.Check(prop, when+": invariant "+iv.n, !broken)
	}
}

// checkBatch runs a block end over arbitrary live orders and checks every movement of coins.
func (r *run) checkBatch(prop string, p types.Pair, os []types.Order, pools []types.Pool) {
	t := r.t
	// every fill may round by one quote unit: an order is filled at most once per price level of the other side
	tol := int64(2)
	if len(pools) > 0 {
		tol = 2000
	}
	dust := r.k.GetDustCollector(r.ctx)
	accs := []sdk.AccAddress{esc(p), dust}
	for _, o := range os {
		accs = append(accs, o.GetOrdererAcc())
	}
	for _, q := range pools {
		accs = append(accs, q.GetReserveAddressAcc())
	}
	before := r.snap(accs, base, quote)
	p0 := r.pair(p.Id)
	r.endBlock()
	r.invariants(prop, "after the batch")
	held := map[string]math.Int{base: math.ZeroInt(), quote: math.ZeroInt()}
	sum := map[string]math.Int{base: math.ZeroInt(), quote: math.ZeroInt()}
	anyFill := false
	for i, o := range os {
		n := fmt.Sprint("order ", i, ": ")
		c, ok := r.k.GetOrder(r.ctx, o.PairId, o.Id)
		t.Check(prop, n+"kept", ok)
		filled := o.OpenAmount.Sub(c.OpenAmount)
		paid := o.RemainingOfferCoin.Amount.Sub(c.RemainingOfferCoin.Amount)
		rec := c.ReceivedCoin.Amount.Sub(o.ReceivedCoin.Amount)
		t.Observe(n+"filled", filled)
		t.Observe(n+"paid", paid)
		t.Observe(n+"received", rec)
		od, dd := o.OfferCoin.Denom, o.ReceivedCoin.Denom
		t.Check(prop, n+"no negative fill", !filled.IsNegative() && !paid.IsNegative() && !rec.IsNegative() && !c.OpenAmount.IsNegative() && !c.RemainingOfferCoin.Amount.IsNegative())
		t.Check(prop, n+"received coins are paid out", r.delta(before, o.GetOrdererAcc(), dd).Equal(rec))
		if o.Direction == types.OrderDirectionBuy {
			t.Check(prop, n+"receives what is filled", rec.Equal(filled))
			t.Check(prop, n+"pays at most its price", paid.LTE(ceilMul(o.Price, filled).AddRaw(tol-1)))
		} else {
			t.Check(prop, n+"pays what is filled", paid.Equal(filled))
			t.Check(prop, n+"receives at least its price", rec.AddRaw(tol).ToLegacyDec().GT(o.Price.MulInt(filled)))
		}
		if live(c.Status) {
			t.Check(prop, n+"live order gets nothing back", r.delta(before, o.GetOrdererAcc(), od).IsZero())
			held[od] = held[od].Add(c.RemainingOfferCoin.Amount)
			t.Check(prop, n+"is open", c.OpenAmount.IsPositive())
			want := types.OrderStatusNotMatched
			if filled.IsPositive() || o.Status == types.OrderStatusPartiallyMatched {
				want = types.OrderStatusPartiallyMatched
			}
			t.Check(prop, n+"status", c.Status == want)
		} else {
			t.Check(prop, n+"finished order gets the rest back", r.delta(before, o.GetOrdererAcc(), od).Equal(c.RemainingOfferCoin.Amount))
			t.Check(prop, n+"completed exactly when filled", (c.Status == types.OrderStatusCompleted) == c.OpenAmount.IsZero() || c.Status == types.OrderStatusExpired && filled.IsZero())
		}
		if filled.IsPositive() {
			anyFill = true
		}
		for _, d := range []string{base, quote} {
			sum[d] = sum[d].Add(r.delta(before, o.GetOrdererAcc(), d))
		}
	}
	for _, d := range []string{base, quote} {
		t.Eq(prop, "escrow holds exactly the live orders' remaining offers "+d, r.bal(esc(p), d), held[d])
		for _, q := range pools {
			sum[d] = sum[d].Add(r.delta(before, q.GetReserveAddressAcc(), d))
		}
		sum[d] = sum[d].Add(r.delta(before, esc(p), d)).Add(r.delta(before, dust, d))
		t.Check(prop, "no coin appears or disappears "+d, sum[d].IsZero())
	}
	t.Check(prop, "dust is quote coins only", r.delta(before, dust, base).IsZero() && !r.delta(before, dust, quote).IsNegative())
	for i, q := range pools {
		if !r.delta(before, q.GetReserveAddressAcc(), base).IsZero() {
			anyFill = true
		}
		a := q.GetReserveAddressAcc()
		dx, dy := r.delta(before, a, quote), r.delta(before, a, base)
		t.Check(prop, fmt.Sprint("pool ", i, " trades in one direction"), dx.IsZero() && dy.IsZero() || !dx.IsNegative() && !dy.IsPositive() || !dx.IsPositive() && !dy.IsNegative())
	}
	p1 := r.pair(p.Id)
	t.Check(prop, "next batch", p1.CurrentBatchId == p0.CurrentBatchId+1 && p1.LastOrderId == p0.LastOrderId)
	if anyFill {
		t.Reach("filled")
		t.Check(prop, "a match sets the last price", p1.LastPrice != nil)
	} else {
		t.Reach("no fill")
		t.Check(prop, "without a match the last price stays", (p1.LastPrice == nil) == (p0.LastPrice == nil) && (p1.LastPrice == nil || p1.LastPrice.Equal(*p0.LastPrice)))
	}
}

// liveOrder puts a live order with arbitrary history: any open amount; a buy order may have any remaining offer.
func (r *run) liveOrder(p types.Pair, i int, d types.OrderDirection, price string, maxAmt any, fresh bool) types.Order {
	t := r.t
	amt := t.Int(fmt.Sprint("open", i), 100, maxAmt)
	rem := amt
	st, batch := types.OrderStatusPartiallyMatched, uint64(1)
	pr := dec(price)
	if d == types.OrderDirectionBuy {
		rem = ceilMul(pr, amt)
		if !fresh {
			rem = t.Int(fmt.Sprint("remaining", i), 1, maxAmt)
			t.Assume(rem.LTE(ceilMul(pr, amt)))
		}
	}
	if fresh {
		st, batch = types.OrderStatusNotExecuted, p.CurrentBatchId
	}
	o := r.putOrder(p, uint64(i+1), types.OrderTypeLimit, addr(i+1), d, pr, amt, amt, rem, batch, st, t0.Add(time.Hour))
	if !fresh {
		o.ReceivedCoin.Amount = t.Int(fmt.Sprint("received", i), 1, e40)
		r.k.SetOrder(r.ctx, o)
	}
	return o
}

func init() {
	funcs := "EndBlocker; Keeper.ExecuteRequests, ExecuteMatching, Match, ApplyMatchResult, FinishOrder; types.NewUserOrder, BulkSendCoinsOperation, PoolOrderer; amm.OrderBook.Match, MatchAtSinglePrice, FindMatchPrice, PoolOrders; bank InputOutputCoins; the registered invariants"
	must := []string{"filled", "no fill"}
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	books := [][]uo{
		{{buy, "0.0205"}, {sell, "0.0195"}},
		{{buy, "1.05"}, {sell, "0.97"}},
		{{buy, "1.0001"}, {sell, "1.0001"}},
		{{buy, "0.95"}, {sell, "1.05"}},
		{{buy, "1.1"}, {sell, "1.07"}},
		{{buy, "0.93"}, {sell, "0.9"}},
	}
	vf.Register(&vf.Harness{
		Name: "batch2", Props: []string{"C11"}, Setup: newWorld,
		Bounds: "a buy and a sell order at 5 price combinations around 1 and one around 0.02, new or partially matched before, open amounts and the buy order's remaining offer symbolic up to 10^30, no last price or 1",
		Funcs:  funcs, Must: must,
		Run: func(t *vf.T) {
			r := start(t)
			bi := t.Choose("book", len(books))
			b := books[bi]
			last := []string{"", "1"}[t.Choose("last", 2)]
			if bi == 0 && last != "" {
				last = "0.02"
			}
			p := r.mkPair(base, quote, last)
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			var os []types.Order
			for i, o := range b {
				os = append(os, r.liveOrder(p, i, o.dir, o.price, vf.Pow10(30), t.Bool(fmt.Sprint("new", i))))
			}
			r.checkBatch("C11", p, os, nil)
		},
	})
	vf.Register(&vf.Harness{
		Name: "batchpool", Props: []string{"C11"}, Setup: newWorld,
		Bounds: "one user order of each direction and 4 prices against a basic and/or ranged pool with concrete reserves, amount symbolic up to 10^30, no last price or 1, 0.98; tick precision 2 and limit ratio 5 % (thorough: 4 and 10 %)",
		Funcs:  funcs, Must: must,
		Run: func(t *vf.T) {
			r := start(t)
			if !t.Thorough() {
				ps := r.k.GetParams(r.ctx)
				ps.TickPrecision, ps.MaxPriceLimitRatio = 2, dec("0.05")
				r.k.SetParams(r.ctx, ps)
			}
			p := r.mkPair(base, quote, []string{"1", "", "0.98"}[t.Choose("last", deep(t, 2, 3))])
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			var pools []types.Pool
			which := t.Choose("pools", deep(t, 3, 4))
			if which != 1 {
				pools = append(pools, r.mkPool(p.Id, 1, 1000003, 1000000, "", "", ""))
			}
			if which != 0 {
				pools = append(pools, r.mkPool(p.Id, 2, 3000000, 2000000, "0.9", "1.2", "1.01"))
			}
			if which == 3 {
				pools = append(pools, r.mkPool(p.Id, 2, 3000000, 2000000, "0.99", "1.1", "1"))
			}
			d := dirs[t.Choose("dir", 2)]
			prs := []string{"1.01", "0.996", "1.03", "0.96"}
			pr := prs[t.Choose("price", deep(t, 3, 4))]
			o := r.liveOrder(p, 0, d, pr, vf.Pow10(30), t.Choose("old", deep(t, 1, 2)) == 0)
			r.checkBatch("C11", p, []types.Order{o}, pools)
		},
	})
}

func init() {
	vf.Register(&vf.Harness{
		Name: "batchextreme", Props: []string{"C11"}, Setup: newWorld,
		Bounds: "a buy and a sell order placed by messages at prices from the lowest to 10^38, amounts symbolic over the whole range the messages admit (up to 10^40), no last price",
		Funcs:  "as batch2, over the largest admissible amounts", Must: []string{"filled", "no fill"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, "")
			bp := dec([]string{"100000000000000000000000000000000000000", "10000000000000000000000000000", "1", "0.00000000000002"}[t.Choose("bp", 4)])
			sp := dec([]string{"1", "0.00000000000001", "10000000000000000000000000000"}[t.Choose("sp", 3)])
			hi := maxAmt
			if bp.GT(math.LegacyOneDec()) {
				hi = maxAmt.ToLegacyDec().Quo(bp).TruncateInt()
			}
			a := t.Int("a", 100, hi)
			b := t.Int("b", 100, e40)
			off := ceilMul(bp, a)
			r.fund(addr(1), sdk.NewCoin(quote, off))
			r.fund(addr(2), sdk.NewCoin(base, b))
			if r.place(tLimit, addr(1), 1, types.OrderDirectionBuy, sdk.NewCoin(quote, off), base, bp, a, time.Hour) != nil ||
				r.place(tLimit, addr(2), 1, types.OrderDirectionSell, sdk.NewCoin(base, b), quote, sp, b, time.Hour) != nil {
				return
			}
			r.checkBatch("C11", p, r.k.GetOrdersByPair(r.ctx, p.Id), nil)
		},
	})
	vf.Register(&vf.Harness{
		Name: "batch3", Props: []string{"C11"}, Setup: newWorld, ThoroughOnly: true,
		Bounds: "three orders, two on one side, at 4 price combinations around 1 and 0.02, new or partially matched before, open amounts symbolic up to 10^30, no last price or 1 (0.02)",
		Funcs:  "as batch2", Must: []string{"filled", "no fill"},
		Run: func(t *vf.T) {
			r := start(t)
			low := t.Bool("low")
			last := []string{"", "1"}[t.Choose("last", 2)]
			bs := [][]uo{
				{{types.OrderDirectionBuy, "1.05"}, {types.OrderDirectionBuy, "1.01"}, {types.OrderDirectionSell, "0.97"}},
				{{types.OrderDirectionBuy, "1.05"}, {types.OrderDirectionSell, "1.02"}, {types.OrderDirectionSell, "0.97"}},
				{{types.OrderDirectionBuy, "1"}, {types.OrderDirectionBuy, "1"}, {types.OrderDirectionSell, "1"}},
			}
			if low {
				if last != "" {
					last = "0.02"
				}
				bs = [][]uo{
					{{types.OrderDirectionBuy, "0.021"}, {types.OrderDirectionBuy, "0.0205"}, {types.OrderDirectionSell, "0.0195"}},
					{{types.OrderDirectionBuy, "0.021"}, {types.OrderDirectionSell, "0.0205"}, {types.OrderDirectionSell, "0.0195"}},
					{{types.OrderDirectionBuy, "0.02"}, {types.OrderDirectionBuy, "0.02"}, {types.OrderDirectionSell, "0.02"}},
				}
			}
			p := r.mkPair(base, quote, last)
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			var os []types.Order
			for i, o := range bs[t.Choose("book", len(bs))] {
				os = append(os, r.liveOrder(p, i, o.dir, o.price, vf.Pow10(30), t.Bool(fmt.Sprint("new", i))))
			}
			r.checkBatch("C11", p, os, nil)
		},
	})
}
