package main

import (
	"fmt"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	vesting "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// lock makes an account's next coins unspendable: anybody may have created it as a vesting account beforehand.
func (r *run) lock(a sdk.AccAddress, coins ...sdk.Coin) {
	ak := r.w.app.AccountKeeper
	var b *authtypes.BaseAccount
	switch x := ak.GetAccount(r.ctx, a).(type) {
	case *authtypes.BaseAccount:
		b = x
	case nil:
		b = ak.NewAccountWithAddress(r.ctx, a).(*authtypes.BaseAccount)
	default:
		panic(fmt.Sprintf("account type %T", x))
	}
	v, err := vesting.NewPermanentLockedAccount(b, sdk.NewCoins(coins...))
	r.must(err)
	ak.SetAccount(r.ctx, v)
	r.fund(a, coins...)
}

func init() {
	funcs := "EndBlocker; Keeper.ExecuteRequests, ExecuteMatching, Match, ApplyMatchResult, FinishOrder, getPoolBalances; types.NewUserOrder, UserOrder.GetBatchId, HasPriority, PoolOrder; amm.OrderBook.Match, GroupOrdersByBatchId, SortOrders, DistributeOrderAmountToTick; bank SpendableCoins, InputOutputCoins"
	vf.Register(&vf.Harness{
		Name: "batchlocked", Props: []string{"C11"}, Setup: newWorld,
		Bounds: "one user order of each direction against a basic or a ranged pool whose account also holds locked coins (concrete, far more than its reserves), amount symbolic up to 10^30, no last price or 1; tick precision 2, limit ratio 5 %",
		Funcs:  funcs, Must: []string{"filled"},
		Run: func(t *vf.T) {
			r := start(t)
			ps := r.k.GetParams(r.ctx)
			ps.TickPrecision, ps.MaxPriceLimitRatio = 2, dec("0.05")
			r.k.SetParams(r.ctx, ps)
			p := r.mkPair(base, quote, []string{"1", ""}[t.Choose("last", 2)])
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			var pool types.Pool
			if t.Bool("ranged") {
				pool = r.mkPool(p.Id, 2, 3000000, 2000000, "0.9", "1.2", "1.01")
			} else {
				pool = r.mkPool(p.Id, 1, 2000003, 2000000, "", "", "")
			}
			r.lock(pool.GetReserveAddressAcc(), sdk.NewInt64Coin(base, 5000000000), sdk.NewInt64Coin(quote, 7000000000))
			d := t.Choose("dir", 2)
			o := r.liveOrder(p, 0, dirs[d], []string{"1.04", "0.97"}[d], vf.Pow10(30), true)
			r.checkBatch("C11", p, []types.Order{o}, []types.Pool{pool})
		},
	})
	vf.Register(&vf.Harness{
		Name: "batchfair", Props: []string{"C04", "C11"}, Setup: newWorld,
		Bounds: "two stored orders of one side at one price or next to each other, from the current or an earlier batch, amounts 100 or 3000 (thorough: or 101) each, with or without a pool whose first order stands at the same price, against one order of any amount 100..10^7; no last price or 1",
		Funcs:  funcs, Must: []string{"filled"},
		Run: func(t *vf.T) {
			r := start(t)
			ps := r.k.GetParams(r.ctx)
			ps.TickPrecision, ps.MaxPriceLimitRatio = 2, dec("0.1")
			r.k.SetParams(r.ctx, ps)
			p := r.mkPair(base, quote, []string{"", "1"}[t.Choose("last", 2)])
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			side := t.Choose("side", 2)
			dir, opp := dirs[side], dirs[1-side]
			buy := dir == types.OrderDirectionBuy
			var pools []types.Pool
			at := "1.01"
			far := "1.04"
			if buy {
				at, far = "0.999", "0.96"
			}
			if t.Bool("pool") {
				if buy {
					pools = append(pools, r.mkPool(p.Id, 2, 2000000, 0, "0.8", "1", "1"))
				} else {
					pools = append(pools, r.mkPool(p.Id, 2, 0, 2000000, "1", "1.2", "1"))
				}
			}
			next := map[bool]string{true: "0.998", false: "1.02"}[buy]
			var os []types.Order
			put := func(i int, d types.OrderDirection, pr string, a math.Int, batch uint64, st types.OrderStatus) {
				rem := a
				if d == types.OrderDirectionBuy {
					rem = ceilMul(dec(pr), a)
				}
				os = append(os, r.putOrder(p, uint64(i+1), types.OrderTypeLimit, addr(i+1), d, dec(pr), a, a, rem, batch, st, t0.Add(time.Hour)))
			}
			for i := 0; i < 2; i++ {
				a := math.NewInt([]int64{100, 3000, 101}[t.Choose(fmt.Sprint("amount", i), deep(t, 2, 3))])
				pr := at
				if i == 1 && t.Bool("next") {
					pr = next
				}
				if t.Bool(fmt.Sprint("old", i)) {
					put(i, dir, pr, a, uint64(5+i), types.OrderStatusNotMatched)
				} else {
					put(i, dir, pr, a, 7, types.OrderStatusNotExecuted)
				}
			}
			put(2, opp, far, t.Int("amount", 100, vf.Pow10(7)), 7, types.OrderStatusNotExecuted)
			if t.On("C11") {
				r.checkBatch("C11", p, os, pools)
			}
			if !t.On("C04") {
				return
			}
			var before math.Int
			offer := base
			if buy {
				offer = quote
			}
			if pools != nil {
				before = r.bal(pools[0].GetReserveAddressAcc(), offer)
			}
			r.endBlock()
			var fill, open [2]math.Int
			for i := range fill {
				c, _ := r.k.GetOrder(r.ctx, p.Id, os[i].Id)
				fill[i], open[i] = os[i].OpenAmount.Sub(c.OpenAmount), c.OpenAmount
				t.Observe(fmt.Sprint("filled", i), fill[i])
				if fill[i].IsPositive() {
					t.Reach("filled")
					if open[i].IsPositive() {
						t.Reach("part")
					}
				}
			}
			for i := range fill {
				j := 1 - i
				a, b := os[i], os[j]
				better := buy && a.Price.GT(b.Price) || !buy && a.Price.LT(b.Price)
				same := a.Price.Equal(b.Price)
				switch {
				case better:
					t.Check("C04", "a better price is filled first", open[i].LTE(math.OneInt()) || fill[j].IsZero())
				case same && a.BatchId < b.BatchId:
					t.Check("C04", "an earlier batch is filled first", open[i].LTE(math.OneInt()) || fill[j].IsZero())
				case same && a.BatchId == b.BatchId && a.Amount.GT(b.Amount):
					t.Check("C04", "a larger order is never filled by less", fill[i].GTE(fill[j]))
				}
			}
			if pools != nil {
				t.Check("C04", "pools trade after the orders at their price", open[0].LTE(math.OneInt()) || r.bal(pools[0].GetReserveAddressAcc(), offer).Equal(before))
			}
		},
	})
}
