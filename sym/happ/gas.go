package main

import (
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

func init() {
	vf.Register(&vf.Harness{
		Name: "extragas", Props: []string{"C26"}, Setup: newWorld,
		Bounds: "one order of each type and direction, deposit or withdrawal of any amount, or a cancel, executed twice from the same state with one of the three gas parameters 10000 and then 99999; then with a gas limit one below what was used",
		Funcs:  "msgServer.LimitOrder, MarketOrder, MMOrder, Deposit, Withdraw, CancelOrder; Keeper.placeOrder, Deposit, Withdraw, GetOrderExtraGas, GetDepositExtraGas, GetWithdrawExtraGas; the gas meter",
		Must:   []string{"order", "deposit", "withdrawal", "cancel", "refused", "out of gas"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, "1")
			n := math.NewInt(1000000)
			pool := r.putPool(p, 1, true, n, n, n, "0.5", "2", false)
			u := addr(1)
			big := vf.Pow10(12)
			a, off := t.Int("amount", 0, big), t.Int("offer", 0, big)
			r.fund(u, sdk.NewCoin(quote, math.NewIntFromBigInt(big)), sdk.NewCoin(base, math.NewIntFromBigInt(big)), sdk.NewCoin(pool.PoolCoinDenom, n))
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			r.putOrder(p, 9, types.OrderTypeLimit, u, types.OrderDirectionBuy, dec("1"), n, n, n, 5, types.OrderStatusNotMatched, t0.Add(time.Hour))
			kind := t.Choose("message", 4)
			typ, dir := 0, types.OrderDirectionBuy
			if kind == 0 {
				typ, dir = t.Choose("type", 3), dirs[t.Choose("dir", 2)]
			}
			od, dd := denomsOf(dir)
			send := func() error {
				switch kind {
				case 0:
					return r.place(typ, u, 1, dir, sdk.NewCoin(od, off), dd, dec("1.01"), a, time.Hour)
				case 1:
					return r.deposit(u, 1, sdk.NewCoins(sdk.NewCoin(base, a), sdk.NewCoin(quote, off)))
				case 2:
					return r.withdraw(u, 1, sdk.NewCoin(pool.PoolCoinDenom, a))
				}
				_, err := r.ms.CancelOrder(r.ctx, types.NewMsgCancelOrder(u, 1, 9))
				return err
			}
			which := t.Choose("parameter", 3)
			orig := r.ctx
			set := func(extra, limit uint64) {
				c, _ := orig.CacheContext()
				r.ctx = c
				ps := r.k.GetParams(r.ctx)
				ps.OrderExtraGas, ps.DepositExtraGas, ps.WithdrawExtraGas = 10000, 10000, 10000
				switch which {
				case 0:
					ps.OrderExtraGas = storetypes.Gas(extra)
				case 1:
					ps.DepositExtraGas = storetypes.Gas(extra)
				case 2:
					ps.WithdrawExtraGas = storetypes.Gas(extra)
				}
				r.k.SetParams(r.ctx, ps)
				if limit == 0 {
					r.ctx = r.ctx.WithGasMeter(storetypes.NewInfiniteGasMeter())
				} else {
					r.ctx = r.ctx.WithGasMeter(storetypes.NewGasMeter(limit))
				}
			}
			set(10000, 0)
			err1 := send()
			g1 := r.ctx.GasMeter().GasConsumed()
			set(99999, 0)
			err2 := send()
			g2 := r.ctx.GasMeter().GasConsumed()
			t.Check("C26", "the gas parameters do not decide what is accepted", (err1 == nil) == (err2 == nil))
			if err1 != nil {
				t.Reach("refused")
				return
			}
			want := g1
			if kind == which {
				want += 89999
			}
			t.Reach([]string{"order", "deposit", "withdrawal", "cancel"}[kind])
			t.Check("C26", "the parameter is charged exactly once, to the messages of its kind", g2 == want)
			// with one unit of gas less the message must not get through
			set(99999, g2-1)
			out := false
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, is := x.(storetypes.ErrorOutOfGas); !is {
							panic(x)
						}
						out = true
					}
				}()
				_ = send()
			}()
			t.Check("C26", "without the gas the message fails", out)
			t.Reach("out of gas")
		},
	})
}
