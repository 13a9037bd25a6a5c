package main

import (
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

const token, tokenLen = "71718281828459045235360287", 40

// sameText compares two texts in which symbolic numbers are written as tokens; numbers are compared by value.
func sameText(a, b string) bool {
	if a == b {
		return true
	}
	if !vf.Symbolic() {
		return false
	}
	as, bs := strings.Split(a, token), strings.Split(b, token)
	if len(as) != len(bs) || as[0] != bs[0] {
		return false
	}
	n := tokenLen - len(token)
	for i := range as[1:] {
		x, y := as[i+1], bs[i+1]
		if len(x) < n || len(y) < n || x[n:] != y[n:] {
			return false
		}
		if x != y && !mi(token+x[:n]).Equal(mi(token+y[:n])) {
			return false
		}
	}
	return true
}

func sortedKeys(m map[string]string) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// outcome is everything a node must agree on: stores and events.
func (r *run) outcome() (map[string]string, []string) {
	m := r.dump(r.ctx)
	it := r.ctx.KVStore(r.w.app.GetKey(banktypes.StoreKey)).Iterator(nil, nil)
	for ; it.Valid(); it.Next() {
		m["bank/"+string(it.Key())] = string(it.Value())
	}
	it.Close()
	var es []string
	for _, e := range r.ctx.EventManager().Events() {
		s := e.Type
		for _, a := range e.Attributes {
			s += "|" + a.Key + "=" + a.Value
		}
		es = append(es, s)
	}
	return m, es
}

// twice runs f from the same state under two map iteration orders and compares.
func (r *run) twice(f func()) {
	t := r.t
	orig := r.ctx
	one := func(k int) (map[string]string, []string) {
		c, _ := orig.CacheContext()
		r.ctx = c.WithEventManager(sdk.NewEventManager())
		t.MapOrder(k)
		f()
		m, e := r.outcome()
		t.MapOrder(0)
		return m, e
	}
	m1, e1 := one(0)
	m2, e2 := one(1 + t.Choose("map order", deep(t, 4, 7)))
	t.Check("C23", "the same entries exist", len(m1) == len(m2))
	for _, k := range sortedKeys(m1) {
		v, ok := m2[k]
		t.Check("C23", "the state is the same", ok && sameText(m1[k], v))
	}
	t.Check("C23", "the number of events is the same", len(e1) == len(e2))
	for i := range e1 {
		t.Check("C23", "the events are the same in the same order", sameText(e1[i], e2[i]))
	}
	r.ctx = orig
}

func init() {
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	fn := "every message handler and block hook run twice: limit, market and market-making orders, cancels, deposits, withdrawals, pair and pool creation, matching, expiry, deletion"
	vf.Register(&vf.Harness{
		Name: "twicehistory", Props: []string{"C23"}, Setup: newWorld, Retry: true,
		Bounds: "a history with all kinds of messages up to 9 points, run twice with 4 (thorough 7) different map iteration orders of maps of up to 8 entries; one order and a deposit with a symbolic amount",
		Funcs:  fn,
		Run: func(t *vf.T) {
			r := start(t)
			stop := t.Choose("point", 9)
			a := t.Int("amount", 100, vf.Pow10(12))
			r.twice(func() {
				r.history(stop)
				if stop < 2 {
					return
				}
				p3 := r.pair(3)
				r.fund(addr(3), sdk.NewCoin(base, a.MulRaw(3)), sdk.NewCoin(quote, a))
				m := types.NewMsgLimitOrder(addr(3), 3, sell, sdk.NewCoin(base, a), p3.QuoteCoinDenom, dec("2.1"), a, time.Hour)
				if _, err := r.ms.LimitOrder(r.ctx, m); err != nil {
					return
				}
				_ = r.deposit(addr(3), 1, sdk.NewCoins(sdk.NewCoin(base, a), sdk.NewCoin(quote, a)))
				_, err := r.ms.CancelAllOrders(r.ctx, types.NewMsgCancelAllOrders(addr(1), nil))
				r.must(err)
				_, err = r.ms.CancelAllOrders(r.ctx, types.NewMsgCancelAllOrders(addr(2), []uint64{4, 3, 2, 1}))
				r.must(err)
			})
		},
	})
	vf.Register(&vf.Harness{
		Name: "twicebatch", Props: []string{"C23"}, Setup: newWorld, Retry: true,
		Bounds: "one batch with up to 4 crossing orders of three owners and two batches at one or two prices, a pool or none, without a pool one amount symbolic (100..10^12 in a book of two orders, else 100..3000), run twice with 4 (thorough 7) different map iteration orders",
		Funcs:  "EndBlocker; ExecuteRequests, Match, ApplyMatchResult; OrderBook.Match, MatchAtSinglePrice, DistributeOrderAmountToTick, DistributeOrderAmountToOrders, GroupOrdersByBatchID; BulkSendCoinsOperation",
		Must:   []string{"traded"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, []string{"", "1"}[t.Choose("last", 2)])
			pool := t.Bool("pool")
			if pool {
				r.mkPool(p.Id, 2, 5000000, 5000000, "0.9", "1.1", "1")
			}
			p = r.pair(p.Id)
			p.CurrentBatchId = 3
			r.k.SetPair(r.ctx, p)
			bi := t.Choose("book", 4)
			a, b := math.NewInt(123457), math.NewInt(300001)
			if !pool {
				a = t.Int("a", 100, []int{3000, 3000, 3000, 1000000000000}[bi])
			}
			put := func(i int, d types.OrderDirection, pr string, amt math.Int, batch uint64) {
				rem := amt
				if d == buy {
					rem = ceilMul(dec(pr), amt)
				}
				r.putOrder(p, uint64(i), types.OrderTypeLimit, addr(1+i%3), d, dec(pr), amt, amt, rem, batch, types.OrderStatusNotExecuted, t0.Add(time.Hour))
			}
			put(1, sell, "0.99", a, 3)
			put(2, buy, "1.02", b, 3)
			switch bi {
			case 0:
				put(3, buy, "1.02", math.NewInt(777), 3)
			case 1:
				put(3, buy, "1.02", math.NewInt(777), 2)
				put(4, sell, "1.01", math.NewInt(555), 3)
			case 2:
				put(3, sell, "0.99", math.NewInt(1234), 3)
				put(4, sell, "0.99", math.NewInt(987), 3)
			}
			r.twice(func() {
				r.endBlock()
				if r.pair(1).LastPrice != nil {
					t.Reach("traded")
				}
				r.nextBlock(2 * time.Hour)
				r.endBlock()
				r.nextBlock(time.Second)
			})
		},
	})
}
