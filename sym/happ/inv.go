package main

import (
	"fmt"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"

	"defund/x/dex/keeper"
	"defund/x/dex/types"
	"defund/x/verif/vf"
)

type routes map[string]sdk.Invariant

func (r routes) RegisterRoute(m, n string, f sdk.Invariant) { r[m+"/"+n] = f }

// broken runs what the module registers and its combined form.
func (r *run) broken() bool {
	rs := routes{}
	r.module().(module.HasInvariants).RegisterInvariants(rs)
	any := false
	before := r.dump(r.ctx)
	for _, f := range rs {
		if _, b := f(r.ctx); b {
			any = true
		}
	}
	_, all := keeper.AllInvariants(r.k)(r.ctx)
	r.t.Check("C22", "the combined check agrees with the registered ones", all == any)
	if d := sameDump(before, r.dump(r.ctx)); d != "" {
		r.t.Failf("C22", "checking changes nothing", d)
	}
	return any
}

func init() {
	fn := "AppModule.RegisterInvariants; DepositCoinsEscrowInvariant, PoolCoinEscrowInvariant, RemainingOfferCoinEscrowInvariant, PoolStatusInvariant, NumMMOrdersInvariant, AllInvariants; store iteration; bank SpendableCoins, GetSupply"
	rst := []types.RequestStatus{types.RequestStatusNotExecuted, types.RequestStatusSucceeded, types.RequestStatusFailed}
	vf.Register(&vf.Harness{
		Name: "invariants", Props: []string{"C22"}, Setup: newWorld,
		Bounds: "two deposits, two withdrawals or two orders in any status with symbolic amounts 1..10^40 and a symbolic escrow balance of each coin 0..10^41; two pools with a symbolic supply; two market-making orders in any status and any two of five counts",
		Funcs:  fn, Must: []string{"broken", "sound"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, "")
			p2 := r.mkPair(base, other, "")
			ok := true
			set := func(n string, have, need math.Int) {
				if have.LT(need) {
					ok = false
				}
			}
			u, v := addr(1), addr(2)
			z := math.ZeroInt()
			kind := t.Choose("kind", 5)
			if kind != 3 {
				for i := uint64(1); i <= 2; i++ {
					r.putPool(p, i, i == 2, math.NewInt(1000), math.NewInt(1000), math.NewInt(1000), "0.5", "2", false)
				}
			}
			switch kind {
			case 0:
				needX, needY := z, z
				for i := 1; i <= 2; i++ {
					x, y := t.Int(fmt.Sprint("x", i), 1, e40), t.Int(fmt.Sprint("y", i), 1, e40)
					q, _ := r.k.GetPool(r.ctx, 2)
					cs := sdk.NewCoins(sdk.NewCoin(quote, x), sdk.NewCoin(base, y))
					if i == 2 && t.Bool("one-sided") {
						cs, y = sdk.NewCoins(sdk.NewCoin(quote, x)), z
					}
					req := types.NewDepositRequest(types.NewMsgDeposit(u, 2, cs), q, uint64(i), 1)
					req.Status = rst[t.Choose(fmt.Sprint("status", i), 3)]
					r.k.SetDepositRequest(r.ctx, req)
					r.k.SetDepositRequestIndex(r.ctx, req)
					if req.Status == types.RequestStatusNotExecuted {
						needX, needY = needX.Add(x), needY.Add(y)
					}
				}
				hx, hy := t.Int("escrow x", 0, "1"+e40), t.Int("escrow y", 0, "1"+e40)
				r.fund(types.GlobalEscrowAddress, sdk.NewCoin(quote, hx), sdk.NewCoin(base, hy))
				set("quote", hx, needX)
				set("base", hy, needY)
			case 1:
				need := map[uint64]math.Int{1: z, 2: z}
				for i := 1; i <= 2; i++ {
					x := t.Int(fmt.Sprint("x", i), 1, e40)
					pid := uint64(1 + t.Choose(fmt.Sprint("pool", i), 2))
					req := types.NewWithdrawRequest(types.NewMsgWithdraw(u, pid, sdk.NewCoin(types.PoolCoinDenom(pid), x)), uint64(i), 1)
					req.Status = rst[t.Choose(fmt.Sprint("status", i), 3)]
					r.k.SetWithdrawRequest(r.ctx, req)
					r.k.SetWithdrawRequestIndex(r.ctx, req)
					if req.Status == types.RequestStatusNotExecuted {
						need[pid] = need[pid].Add(x)
					}
				}
				for i := uint64(1); i <= 2; i++ {
					h := t.Int(fmt.Sprint("escrow ", i), 0, "1"+e40)
					r.fund(types.GlobalEscrowAddress, sdk.NewCoin(types.PoolCoinDenom(i), h))
					set("pool coin", h, need[i])
				}
			case 2:
				need := map[string]math.Int{"1" + base: z, "1" + quote: z, "2" + base: z, "2" + other: z}
				for i := 1; i <= 2; i++ {
					x := t.Int(fmt.Sprint("x", i), 1, e40)
					q := []types.Pair{p, p2}[t.Choose(fmt.Sprint("pair", i), 2)]
					dir := dirs[t.Choose(fmt.Sprint("dir", i), 2)]
					st := allStatus[t.Choose(fmt.Sprint("status", i), 6)]
					o := r.putOrder(q, uint64(i), types.OrderTypeLimit, u, dir, dec("1"), x, x, z, 1, st, t0.Add(time.Hour))
					o.RemainingOfferCoin.Amount = x
					r.k.SetOrder(r.ctx, o)
					if live(st) {
						k := fmt.Sprint(q.Id, o.OfferCoin.Denom)
						need[k] = need[k].Add(x)
					}
				}
				for _, q := range []types.Pair{p, p2} {
					for _, d := range []string{q.BaseCoinDenom, q.QuoteCoinDenom} {
						k := fmt.Sprint(q.Id, d)
						if need[k].IsZero() { // nothing needed: nothing there
							continue
						}
						h := t.Int("escrow "+k, 0, "1"+e40)
						r.fund(esc(q), sdk.NewCoin(d, h))
						set(k, h, need[k])
					}
				}
			case 3:
				for i := uint64(1); i <= 2; i++ {
					ps := t.Int(fmt.Sprint("supply", i), 0, e40)
					off := t.Bool(fmt.Sprint("disabled", i))
					r.putPool(p, i, t.Bool(fmt.Sprint("ranged", i)), z, z, ps, "0.5", "2", off)
					if !off && ps.IsZero() {
						ok = false
					}
				}
			case 4:
				n := map[string]uint32{}
				one := math.NewInt(1000)
				for i := 1; i <= 2; i++ {
					who := []sdk.AccAddress{u, v}[t.Choose(fmt.Sprint("who", i), 2)]
					q := []types.Pair{p, p2}[t.Choose(fmt.Sprint("pair", i), 2)]
					st := allStatus[t.Choose(fmt.Sprint("status", i), 6)]
					typ := types.OrderTypeMM
					if i == 1 {
						typ = orderTypes[t.Choose("type", 3)]
					}
					r.putOrder(q, uint64(i), typ, who, types.OrderDirectionBuy, dec("1"), one, one, one, 1, st, t0.Add(time.Hour))
					r.k.DeleteNumMMOrders(r.ctx, who, q.Id)
					if typ == types.OrderTypeMM && live(st) {
						n[fmt.Sprint(who, q.Id)]++
					}
				}
				put := func(who sdk.AccAddress, pair uint64, c uint32) {
					if c > 0 {
						r.k.SetNumMMOrders(r.ctx, who, pair, c)
					}
					if n[fmt.Sprint(who, pair)] != c {
						ok = false
					}
				}
				put(u, 1, uint32(t.Choose("count u1", 4)))
				put(v, 2, uint32(t.Choose("count v2", 2)))
				put(u, 2, 0)
				put(v, 1, n[fmt.Sprint(v, 1)])
			}
			b := r.broken()
			t.Reach(map[bool]string{true: "broken", false: "sound"}[b])
			t.Check("C22", "a fault is reported exactly if there is one", b == !ok)
		},
	})
}
