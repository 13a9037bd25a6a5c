package main

import (
	"fmt"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// liveMM counts the live market-making orders of an orderer in a pair.
func (r *run) liveMM(who sdk.AccAddress, pair uint64) (n uint32) {
	for _, o := range r.k.GetAllOrders(r.ctx) {
		if o.Type == types.OrderTypeMM && o.Orderer == who.String() && o.PairId == pair && live(o.Status) {
			n++
		}
	}
	return
}

func (r *run) countsOK(prop string, who []sdk.AccAddress, pairs int) {
	for i, u := range who {
		for p := 1; p <= pairs; p++ {
			res, err := r.k.NumMMOrders(r.ctx, &types.QueryNumMMOrdersRequest{Orderer: u.String(), PairId: uint64(p)})
			r.must(err)
			r.t.Check(prop, fmt.Sprint("the count is the number of live market-making orders ", i, p), res.NumMarketMakingOrders == r.liveMM(u, uint64(p)))
		}
	}
}

func init() {
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	mm := func(t *vf.T, steps int) {
		r := start(t)
		p := r.mkPair(base, quote, "1")
		p2 := r.mkPair(quote, base, "")
		pr := r.k.GetParams(r.ctx)
		max := []uint32{1, 2}[t.Choose("limit", 2)]
		pr.MaxNumMarketMakingOrdersPerPair = max
		r.k.SetParams(r.ctx, pr)
		r.at(2, t0)
		u, v := addr(1), addr(2)
		who := []sdk.AccAddress{u, v}
		used := false
		var first math.Int
		fix := func() { // matching is the subject of other properties: one amount suffices here
			if used && !first.IsNil() {
				t.Assume(first.Equal(math.NewInt(700)))
				first = math.Int{}
			}
			used = true
		}
		place := func(who sdk.AccAddress, p types.Pair, dir types.OrderDirection, price string) {
			amt := math.NewInt(1000)
			if !used {
				amt, used = t.Int("amount", 50, vf.Pow10(12)), true
				first = amt
			}
			n := r.liveMM(who, p.Id)
			od, dd := p.QuoteCoinDenom, p.BaseCoinDenom
			offer := ceilMul(dec(price), amt)
			if dir == sell {
				od, dd, offer = dd, od, amt
			}
			r.fund(who, sdk.NewCoin(od, offer))
			c, write := r.ctx.CacheContext()
			m := types.NewMsgMMOrder(who, p.Id, dir, sdk.NewCoin(od, offer), dd, dec(price), amt, time.Hour)
			err := m.ValidateBasic()
			valid := err == nil && !types.IsTooSmallOrderAmount(amt, dec(price))
			if err == nil {
				_, err = r.ms.MMOrder(c, m)
			}
			t.Check("C18", "a market-making order is accepted exactly below the limit", (err == nil) == (valid && n < max))
			if err == nil {
				write()
				t.Reach("accepted")
			} else {
				t.Reach("refused")
			}
		}
		for i := 0; i < steps; i++ {
			switch t.Choose(fmt.Sprint("step", i), 9) {
			case 0:
				place(u, p, sell, "0.99")
			case 1:
				place(u, p, buy, "1.02")
			case 2:
				place(u, p2, buy, "1")
			case 3:
				place(v, p, sell, "0.99")
			case 4:
				r.must(r.order(types.OrderTypeLimit, u, p, buy, "1.02", 1500, time.Hour))
				t.Check("C18", "other orders are not limited", true)
			case 5:
				for _, o := range r.k.GetOrdersByOrderer(r.ctx, u) {
					if o.Type == types.OrderTypeMM && live(o.Status) {
						c, write := r.ctx.CacheContext()
						if _, err := r.ms.CancelOrder(c, types.NewMsgCancelOrder(u, o.PairId, o.Id)); err == nil {
							write()
							t.Reach("canceled")
						}
						break
					}
				}
			case 6:
				_, err := r.ms.CancelAllOrders(r.ctx, types.NewMsgCancelAllOrders(u, []uint64{2}))
				r.must(err)
				_, err = r.ms.CancelAllOrders(r.ctx, types.NewMsgCancelAllOrders(u, nil))
				r.must(err)
			case 7:
				fix()
				r.endBlock()
				r.countsOK("C18", who, 2)
				r.nextBlock(time.Minute)
			case 8:
				fix()
				r.endBlock()
				r.countsOK("C18", who, 2)
				r.nextBlock(2 * time.Hour)
			}
			r.countsOK("C18", who, 2)
		}
	}
	fn := "MsgMMOrder.ValidateBasic; msgServer.MMOrder, CancelOrder, CancelAllOrders; Keeper.MMOrder, FinishOrder, ExecuteRequests, Get/Set/DeleteNumMMOrders; NumMMOrders query; GetNumMMOrdersKey"
	for _, n := range []int{4, 5} {
		h := &vf.Harness{
			Name: fmt.Sprint("mm", n), Props: []string{"C18"}, Setup: newWorld,
			Bounds: fmt.Sprint("every sequence of ", n, " steps among placing market-making orders of two orderers in two pairs, a limit order, cancels and block ends with matching and expiry; limit 1 or 2; the first amount symbolic 50..10^12 until a block ends"),
			Funcs:  fn, Must: []string{"accepted", "refused", "canceled"}, ThoroughOnly: n > 4,
			Run: func(t *vf.T) { mm(t, n) },
		}
		vf.Register(h)
	}
}
