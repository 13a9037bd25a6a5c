package main

import (
	"fmt"
	"sort"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// what a batch made of a pair
type pairState struct {
	n map[string]math.Int
	s map[string]string
}

func (r *run) pairState(id uint64, users int) pairState {
	p := r.pair(id)
	m := pairState{map[string]math.Int{}, map[string]string{}}
	m.s["batch"] = fmt.Sprint(p.CurrentBatchId)
	m.s["has last price"] = fmt.Sprint(p.LastPrice != nil)
	if p.LastPrice != nil {
		m.n["last price"] = math.NewIntFromBigInt(p.LastPrice.BigInt())
	}
	for i := uint64(11); i < 20; i++ {
		o, ok := r.k.GetOrder(r.ctx, id, i)
		if !ok {
			continue
		}
		k := fmt.Sprint("order ", i, " ")
		m.s[k+"status"] = o.Status.String()
		m.n[k+"open"], m.n[k+"remaining"], m.n[k+"received"] = o.OpenAmount, o.RemainingOfferCoin.Amount, o.ReceivedCoin.Amount
	}
	for i := uint64(5); i <= 7; i += 2 {
		q, ok := r.k.GetPool(r.ctx, i)
		if !ok {
			continue
		}
		k := fmt.Sprint("pool ", i, " ")
		m.s[k+"disabled"] = fmt.Sprint(q.Disabled)
		rx, ry := r.k.GetPoolBalances(r.ctx, q)
		m.n[k+"rx"], m.n[k+"ry"], m.n[k+"supply"] = rx.Amount, ry.Amount, r.supply(q.PoolCoinDenom)
		for _, q := range r.k.GetAllDepositRequests(r.ctx) {
			if q.PoolId == i {
				m.s[k+fmt.Sprint("deposit ", q.Id)] = q.Status.String()
				m.n[k+fmt.Sprint("minted ", q.Id)] = q.MintedPoolCoin.Amount
			}
		}
		for _, q := range r.k.GetAllWithdrawRequests(r.ctx) {
			if q.PoolId == i {
				m.s[k+fmt.Sprint("withdrawal ", q.Id)] = q.Status.String()
				m.n[k+fmt.Sprint("paid ", q.Id)] = q.WithdrawnCoins.AmountOf(quote)
			}
		}
	}
	for i := 11; i < 11+users; i++ {
		for _, d := range []string{base, quote} {
			m.n[fmt.Sprint("user ", i, " ", d)] = r.bal(addr(i), d)
		}
	}
	return m
}

func sorted[V any](m map[string]V) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}

func init() {
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	n := func(a int64) math.Int { return math.NewInt(a) }
	noises := []string{"a disabled pool with reserves", "a depleted pool", "a disabled pool between the active ones", "finished orders at better prices", "an older pair with crossing orders and a pool",
		"an older pair in which nothing happens", "a newer pair with crossing orders", "requests to the pool of an older pair", "coins sent to the escrow accounts", "orders of the same users in another pair",
		"an order that expires before the batch", "a disabled pool after the active ones"}
	vf.Register(&vf.Harness{
		Name: "others", Props: []string{"C29"}, Setup: newWorld,
		Bounds: fmt.Sprintf("a batch with an order of any amount (100..10^12, with pools 10^6) against another one, without pools or with a basic and a ranged one, or an order of four amounts, a basic pool and a deposit into it; with or without a last price; once alone and once with %v", noises),
		Funcs:  "EndBlocker; ExecuteRequests, ExecuteMatching, Match, ApplyMatchResult, FinishOrder, ExecuteDepositRequest, ExecuteWithdrawRequest and the store iterators",
		Must:   append([]string{"filled", "not filled", "pool traded", "minted"}, noises...),
		Run: func(t *vf.T) {
			r := start(t)
			ps := r.k.GetParams(r.ctx)
			ps.TickPrecision, ps.MaxPriceLimitRatio = 2, dec("0.1")
			r.k.SetParams(r.ctx, ps)
			noise := t.Choose("noise", len(noises))
			cfg := []struct {
				last  string
				pools int
			}{{"", 0}, {"1", 0}, {"1", 1}, {"1", 3}, {"", 1}, {"1", 2}, {"", 2}, {"", 3}}[t.Choose("setting", deep(t, 5, 8))]
			last, pools := cfg.last, cfg.pools
			side := t.Choose("side", 2)
			var amt math.Int
			if pools == 1 { // with a deposit, whose share would depend on it
				amt = n([]int64{100, 29999, 123456, 5000000}[t.Choose("amount", 4)])
			} else {
				amt = t.Int("amount", 100, vf.Pow10([]int{12, 6}[min(pools, 1)]))
			}
			root := r.ctx
			exp := t0.Add(time.Hour)
			mkOrder := func(p types.Pair, id uint64, who int, d types.OrderDirection, pr string, a math.Int, st types.OrderStatus, exp time.Time) {
				rem := a
				if d == buy {
					rem = ceilMul(dec(pr), a)
				}
				batch := p.CurrentBatchId
				if st != types.OrderStatusNotExecuted {
					batch--
				}
				if st.IsCanceledOrExpired() || st == types.OrderStatusCompleted {
					rem = n(0)
				}
				r.putOrder(p, id, types.OrderTypeLimit, addr(who), d, dec(pr), a, a, rem, batch, st, exp)
			}
			pairOf := func(b, q, last string) types.Pair {
				p := r.mkPair(b, q, last)
				p.CurrentBatchId, p.LastOrderId = 7, 30
				r.k.SetPair(r.ctx, p)
				return p
			}
			crossing := func(p types.Pair) {
				mkOrder(p, 11, 41, buy, "1.04", n(70000), types.OrderStatusNotExecuted, exp)
				mkOrder(p, 12, 42, sell, "0.97", n(90000), types.OrderStatusNotMatched, exp)
			}
			batch := func(noise int) pairState {
				r.ctx, _ = root.CacheContext()
				if noise >= 0 {
					t.Reach(noises[noise])
				}
				switch noise {
				case 4, 7:
					p := pairOf(other, quote, "1")
					r.putPool(p, 1, false, n(1000000), n(1000000), n(1000000), "", "", false)
					if noise == 4 {
						crossing(p)
						break
					}
					r.fund(addr(41), sdk.NewInt64Coin(other, 50000), sdk.NewInt64Coin(quote, 50000))
					r.must(r.deposit(addr(41), 1, sdk.NewCoins(sdk.NewInt64Coin(other, 50000), sdk.NewInt64Coin(quote, 50000))))
					r.fund(addr(42), sdk.NewInt64Coin(types.PoolCoinDenom(1), 1000))
					r.must(r.withdraw(addr(42), 1, sdk.NewInt64Coin(types.PoolCoinDenom(1), 999)))
					r.must(r.withdraw(addr(42), 1, sdk.NewInt64Coin(types.PoolCoinDenom(1), 1)))
				case 5:
					pairOf(other, quote, "")
				case 9:
					p := pairOf(other, "third", "1")
					for i := 0; i < 2; i++ {
						d := dirs[i]
						rem := n(5000)
						if d == buy {
							rem = ceilMul(dec("1.01"), rem)
						}
						r.putOrder(p, uint64(11+i), types.OrderTypeLimit, addr(11+i), d, dec("1.01"), n(5000), n(5000), rem, 7, types.OrderStatusNotExecuted, exp)
					}
				}
				p := pairOf(base, quote, last)
				switch noise {
				case 0:
					r.putPool(p, 1, true, n(3000000), n(3000000), n(3000000), "0.5", "2", true)
				case 1:
					r.putPool(p, 1, false, n(0), n(5000), n(1000), "", "", false)
				case 2:
					r.putPool(p, 6, false, n(3000000), n(3000000), n(3000000), "", "", true)
				case 3:
					mkOrder(p, 1, 41, buy, "1.09", n(70000), types.OrderStatusCanceled, exp)
					mkOrder(p, 2, 42, sell, "0.93", n(70000), types.OrderStatusExpired, exp)
					mkOrder(p, 3, 42, buy, "1.09", n(70000), types.OrderStatusCompleted, exp)
				case 8:
					r.fund(esc(p), sdk.NewInt64Coin(base, 777777), sdk.NewInt64Coin(quote, 888888))
					r.fund(types.GlobalEscrowAddress, sdk.NewInt64Coin(base, 777777), sdk.NewInt64Coin(quote, 888888))
				case 10:
					mkOrder(p, 1, 41, dirs[1-side], "1", n(70000), types.OrderStatusNotMatched, t0)
				case 11:
					r.putPool(p, 9, false, n(3000000), n(3000000), n(3000000), "", "", true)
				}
				if pools&1 != 0 {
					r.putPool(p, 5, false, n(1000003), n(1000000), n(1000000), "", "", false)
				}
				if pools&2 != 0 {
					r.putPool(p, 7, true, n(3000000), n(2000000), n(1000000), "0.9", "1.2", false)
				}
				users := 2
				mkOrder(p, 11, 11, dirs[side], map[types.OrderDirection]string{buy: "1.03", sell: "0.98"}[dirs[side]], amt, types.OrderStatusNotExecuted, exp)
				mkOrder(p, 12, 12, dirs[1-side], "1", n(30000), types.OrderStatusPartiallyMatched, exp)
				if pools == 1 {
					users = 3
					cs := sdk.NewCoins(sdk.NewInt64Coin(base, 50000), sdk.NewInt64Coin(quote, 50000))
					r.fund(addr(13), cs...)
					r.must(r.deposit(addr(13), 5, cs))
				}
				r.endBlock()
				return r.pairState(p.Id, users)
			}
			a, b := batch(-1), batch(noise)
			t.Check("C29", "the same orders, pools and requests remain", len(a.n) == len(b.n) && len(a.s) == len(b.s))
			for _, k := range sorted(a.s) {
				v := a.s[k]
				if w := b.s[k]; v != w {
					t.Failf("C29", k+" is the same with "+noises[noise], v+" became "+w)
				}
			}
			for _, k := range sorted(a.n) {
				v := a.n[k]
				w, ok := b.n[k]
				t.Check("C29", k+" is known", ok)
				t.Eq("C29", k+" is the same with "+noises[noise], v, w)
			}
			if a.s["order 11 status"] != types.OrderStatusNotMatched.String() {
				t.Reach("filled")
			} else {
				t.Reach("not filled")
			}
			if pools&1 != 0 && !a.n["pool 5 ry"].Equal(n(1000000)) {
				t.Reach("pool traded")
			}
			if m, ok := a.n["pool 5 minted 1"]; ok && m.IsPositive() {
				t.Reach("minted")
			}
			t.Observe("open", a.n["order 11 open"])
		},
	})
}
