package main

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// An order takes part in the batch it was placed in whatever its lifespan, and in later ones until it is over.
func init() {
	vf.Register(&vf.Harness{
		Name: "lifespan", Props: []string{"C21"}, Setup: newWorld,
		Bounds: "a limit or market making order with any amount 100..10^12 (with a pool 10^6) that was just placed (its lifespan over a second before or at the batch's end, or not over) against an order of the other type of 30000 from an earlier batch (not or partly matched, due at or a nanosecond after , a second before or an hour after the batch's end), with or without a last price, or with one and a pool; the same with lifespans that are not over",
		Funcs:  "EndBlocker; ExecuteRequests, ExecuteMatching, ApplyMatchResult, FinishOrder; Order.ExpiredAt, OrderStatus.CanBeExpired, IsMatchable",
		Must:   []string{"a new order over in time", "an old order over in time", "nothing over", "completed", "left open"},
		Run: func(t *vf.T) {
			r := start(t)
			ps := r.k.GetParams(r.ctx)
			ps.TickPrecision, ps.MaxPriceLimitRatio = 2, dec("0.1")
			r.k.SetParams(r.ctx, ps)
			set := t.Choose("setting", 3)
			p := r.mkPair(base, quote, []string{"", "1", "1"}[set])
			p.CurrentBatchId, p.LastOrderId = 7, 30
			r.k.SetPair(r.ctx, p)
			if set == 2 {
				r.putPool(p, 1, false, math.NewInt(1000003), math.NewInt(1000000), math.NewInt(1000000), "", "", false)
			}
			r.at(30, t0)
			side := t.Choose("side", 2)
			typs := []types.OrderType{types.OrderTypeMM, types.OrderTypeLimit}
			k := t.Choose("type", 2)
			typ, oldTyp := typs[k], typs[1-k]
			lives := []time.Duration{0, 1, -time.Second, time.Hour, -5 * time.Second}
			la, lb := lives[t.Choose("new", 5)], lives[t.Choose("old", 4)]
			oldSt := []types.OrderStatus{types.OrderStatusNotMatched, types.OrderStatusPartiallyMatched}[t.Choose("old status", 2)]
			amt := t.Int("amount", 100, vf.Pow10([]int{12, 12, 6}[set]))
			old := math.NewInt(30000)
			root := r.ctx
			batch := func(la, lb time.Duration, withOld bool) (a, b types.Order, balA, balB [2]math.Int) {
				r.ctx, _ = root.CacheContext()
				put := func(id uint64, d types.OrderDirection, pr string, amt math.Int, batch uint64, typ types.OrderType, st types.OrderStatus, life time.Duration) {
					rem := amt
					if d == types.OrderDirectionBuy {
						rem = ceilMul(dec(pr), amt)
					}
					r.putOrder(p, id, typ, addr(int(id)), d, dec(pr), amt, amt, rem, batch, st, t0.Add(life))
				}
				if withOld {
					put(11, dirs[1-side], "1", old, 6, oldTyp, oldSt, lb)
				}
				put(12, dirs[side], map[types.OrderDirection]string{types.OrderDirectionBuy: "1.03", types.OrderDirectionSell: "0.98"}[dirs[side]], amt, 7, typ, types.OrderStatusNotExecuted, la)
				r.endBlock()
				var ok bool
				a, ok = r.k.GetOrder(r.ctx, p.Id, 12)
				t.Check("C21", "the new order is there until the next block", ok)
				if withOld {
					b, ok = r.k.GetOrder(r.ctx, p.Id, 11)
					t.Check("C21", "the old order is there until the next block", ok)
				}
				for i, d := range []string{base, quote} {
					balA[i], balB[i] = r.bal(addr(12), d), r.bal(addr(11), d)
				}
				return
			}
			a, b, ba, bb := batch(la, lb, true)
			a2, b2, ba2, bb2 := batch(time.Hour, time.Hour, lb > 0)
			// what is left of a finished order's offer goes back
			back := func(o types.Order, d sdk.Coin, bal [2]math.Int) [2]math.Int {
				for i, x := range []string{base, quote} {
					if x == d.Denom {
						bal[i] = bal[i].Add(d.Amount)
					}
				}
				return bal
			}
			same := func(what string, o, w types.Order, got, want [2]math.Int, over bool) {
				t.Eq("C21", what+" is filled as with a longer lifespan", o.OpenAmount, w.OpenAmount)
				t.Eq("C21", what+" receives as much as with a longer lifespan", o.ReceivedCoin.Amount, w.ReceivedCoin.Amount)
				st := w.Status
				if over && st != types.OrderStatusCompleted && st != types.OrderStatusExpired {
					st = types.OrderStatusExpired
					want = back(o, w.RemainingOfferCoin, want)
				}
				t.Check("C21", what+" ends as it should", o.Status == st)
				for i := range got {
					t.Eq("C21", what+" is paid what is due", got[i], want[i])
				}
			}
			if la <= 0 {
				t.Reach("a new order over in time")
			}
			same("the new order", a, a2, ba, ba2, la <= 0)
			if lb > 0 {
				same("the old order", b, b2, bb, bb2, false)
			} else {
				t.Reach("an old order over in time")
				t.Eq("C21", "an order whose lifespan is over is not matched", b.OpenAmount, old)
				rem := ceilMul(math.LegacyOneDec(), old)
				t.Check("C21", "an order whose lifespan is over expires", b.Status == types.OrderStatusExpired)
				z := [2]math.Int{rem, math.ZeroInt()}
				if dirs[1-side] == types.OrderDirectionBuy {
					z = [2]math.Int{math.ZeroInt(), rem}
				}
				for i := range z {
					t.Eq("C21", "an order whose lifespan is over is refunded", bb[i], z[i])
				}
			}
			if la > 0 && lb > 0 {
				t.Reach("nothing over")
			}
			if a.Status == types.OrderStatusCompleted {
				t.Reach("completed")
			} else {
				t.Reach("left open")
			}
		},
	})
}
