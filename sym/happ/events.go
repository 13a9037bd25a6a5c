package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// ev is an event of the module: its type and attributes.
type ev struct {
	typ string
	at  map[string]string
}

var evTypes = map[string]bool{}

func init() {
	for _, s := range []string{"create_pair", "create_pool", "create_ranged_pool", "deposit", "withdraw", "limit_order", "market_order", "mm_order", "cancel_order", "cancel_all_orders",
		"cancel_mm_order", "deposit_result", "withdrawal_result", "order_result", "user_order_matched", "pool_order_matched"} {
		evTypes[s] = true
	}
}

// e makes an event from a type and key, value pairs.
func e(typ string, kv ...any) ev {
	x := ev{typ, map[string]string{}}
	for i := 0; i < len(kv); i += 2 {
		x.at[kv[i].(string)] = text(kv[i+1])
	}
	return x
}

func text(x any) string {
	if a, ok := x.(sdk.AccAddress); ok {
		return a.String()
	}
	return fmt.Sprint(x)
}

func (x ev) id() string {
	s := x.typ
	for _, k := range []string{"pair_id", "pool_id", "request_id", "order_id"} {
		s += "/" + x.at[k]
	}
	return s
}

// sameNumbers compares two texts by the values of the numbers in them.
func sameNumbers(a, b string) bool {
	if a == b {
		return true
	}
	if !vf.Symbolic() {
		return false
	}
	digit := func(c byte) bool { return c >= '0' && c <= '9' }
	for a != "" && b != "" {
		if digit(a[0]) && digit(b[0]) {
			i, j := 0, 0
			for i < len(a) && digit(a[i]) {
				i++
			}
			for j < len(b) && digit(b[j]) {
				j++
			}
			x, y := a[:i], b[:j]
			if x != y && (!strings.HasPrefix(x, token) && !strings.HasPrefix(y, token) || len(x) > 70 || len(y) > 70 || !mi(x).Equal(mi(y))) {
				return false
			}
			a, b = a[i:], b[j:]
			continue
		}
		if a[0] != b[0] {
			return false
		}
		a, b = a[1:], b[1:]
	}
	return a == b
}

// dexEvents are the module's events since the context's event manager was made.
func (r *run) dexEvents() (l []ev) {
	for _, x := range r.ctx.EventManager().Events() {
		if !evTypes[x.Type] {
			continue
		}
		y := ev{x.Type, map[string]string{}}
		for _, a := range x.Attributes {
			_, dup := y.at[a.Key]
			r.t.Check("C17", "no attribute twice in "+x.Type, !dup)
			y.at[a.Key] = a.Value
		}
		l = append(l, y)
	}
	return
}

// reports checks that exactly the wanted events were emitted.
func (r *run) reports(want []ev) {
	t := r.t
	got := r.dexEvents()
	ids := func(l []ev) (s []string) {
		for _, x := range l {
			s = append(s, x.id())
		}
		sort.Strings(s)
		return
	}
	t.Check("C17", fmt.Sprint("each happening is reported once and nothing else: ", ids(want), " not ", ids(got)), fmt.Sprint(ids(want)) == fmt.Sprint(ids(got)))
	for _, w := range want {
		for _, g := range got {
			if g.id() != w.id() {
				continue
			}
			t.Check("C17", w.typ+" has all its attributes", len(g.at) == len(w.at))
			for _, k := range sortedKeys(w.at) {
				v, ok := g.at[k]
				t.Check("C17", w.typ+" tells its "+k, ok && sameNumbers(w.at[k], v))
			}
		}
		t.Reach(w.typ)
	}
}

// watched is the state before a step.
type watched struct {
	r    *run
	g    *types.GenesisState
	rx   map[uint64]math.Int
	ry   map[uint64]math.Int
	pair map[uint64]types.Pair
}

func (r *run) watch() *watched {
	r.ctx = r.ctx.WithEventManager(sdk.NewEventManager())
	w := &watched{r: r, g: r.k.ExportGenesis(r.ctx), rx: map[uint64]math.Int{}, ry: map[uint64]math.Int{}, pair: map[uint64]types.Pair{}}
	for _, p := range w.g.Pairs {
		w.pair[p.Id] = p
	}
	for _, q := range w.g.Pools {
		p := w.pair[q.PairId]
		w.rx[q.Id], w.ry[q.Id] = r.bal(q.GetReserveAddressAcc(), p.QuoteCoinDenom), r.bal(q.GetReserveAddressAcc(), p.BaseCoinDenom)
	}
	return w
}

// ended are the results of the orders that ended, and the ids of those that were canceled.
func (w *watched) ended() (l []ev, canceled []string) {
	for _, o := range w.g.Orders {
		c, ok := w.r.k.GetOrder(w.r.ctx, o.PairId, o.Id)
		if !ok || !live(o.Status) || live(c.Status) {
			continue
		}
		l = append(l, e("order_result", "order_direction", o.Direction, "orderer", o.Orderer, "pair_id", o.PairId, "order_id", o.Id, "amount", o.Amount,
			"open_amount", c.OpenAmount, "offer_coin", o.OfferCoin, "remaining_offer_coin", c.RemainingOfferCoin, "received_coin", c.ReceivedCoin, "status", c.Status))
		if c.Status == types.OrderStatusCanceled {
			canceled = append(canceled, fmt.Sprint(o.Id))
		}
	}
	return
}

// batch is what the end of a block has to report, given what it changed.
func (w *watched) batch() (l []ev) {
	r := w.r
	l, _ = w.ended()
	for _, o := range w.g.Orders {
		c, ok := r.k.GetOrder(r.ctx, o.PairId, o.Id)
		if !ok || c.OpenAmount.Equal(o.OpenAmount) {
			continue
		}
		l = append(l, e("user_order_matched", "order_direction", o.Direction, "orderer", o.Orderer, "pair_id", o.PairId, "order_id", o.Id,
			"matched_amount", o.OpenAmount.Sub(c.OpenAmount), "paid_coin", sdk.Coin{Denom: o.OfferCoin.Denom, Amount: o.RemainingOfferCoin.Amount.Sub(c.RemainingOfferCoin.Amount)},
			"received_coin", sdk.Coin{Denom: o.ReceivedCoin.Denom, Amount: c.ReceivedCoin.Amount.Sub(o.ReceivedCoin.Amount)}))
	}
	in := map[string]math.Int{} // what requests moved into the reserves
	move := func(pool uint64, cs sdk.Coins, sign int64) {
		for _, c := range cs {
			k := fmt.Sprint(pool, "/", c.Denom)
			if _, ok := in[k]; !ok {
				in[k] = math.ZeroInt()
			}
			in[k] = in[k].Add(c.Amount.MulRaw(sign))
		}
	}
	for _, q := range w.g.DepositRequests {
		c, ok := r.k.GetDepositRequest(r.ctx, q.PoolId, q.Id)
		if !ok || c.Status == q.Status {
			continue
		}
		move(q.PoolId, c.AcceptedCoins, 1)
		l = append(l, e("deposit_result", "request_id", q.Id, "depositor", q.Depositor, "pool_id", q.PoolId, "deposit_coins", q.DepositCoins, "accepted_coins", c.AcceptedCoins,
			"refunded_coins", q.DepositCoins.Sub(c.AcceptedCoins...), "minted_pool_coin", c.MintedPoolCoin, "status", c.Status))
	}
	for _, q := range w.g.WithdrawRequests {
		c, ok := r.k.GetWithdrawRequest(r.ctx, q.PoolId, q.Id)
		if !ok || c.Status == q.Status {
			continue
		}
		move(q.PoolId, c.WithdrawnCoins, -1)
		back := sdk.Coins{}
		if c.Status == types.RequestStatusFailed {
			back = sdk.Coins{q.PoolCoin}
		}
		l = append(l, e("withdrawal_result", "request_id", q.Id, "withdrawer", q.Withdrawer, "pool_id", q.PoolId, "pool_coin", q.PoolCoin,
			"refunded_coins", back, "withdrawn_coins", c.WithdrawnCoins, "status", c.Status))
	}
	for _, q := range w.g.Pools {
		p := w.pair[q.PairId]
		dx := r.bal(q.GetReserveAddressAcc(), p.QuoteCoinDenom).Sub(w.rx[q.Id])
		dy := r.bal(q.GetReserveAddressAcc(), p.BaseCoinDenom).Sub(w.ry[q.Id])
		if v, ok := in[fmt.Sprint(q.Id, "/", p.QuoteCoinDenom)]; ok {
			dx = dx.Sub(v)
		}
		if v, ok := in[fmt.Sprint(q.Id, "/", p.BaseCoinDenom)]; ok {
			dy = dy.Sub(v)
		}
		cq := func(a math.Int) sdk.Coin { return sdk.Coin{Denom: p.QuoteCoinDenom, Amount: a} }
		cb := func(a math.Int) sdk.Coin { return sdk.Coin{Denom: p.BaseCoinDenom, Amount: a} }
		switch {
		case dy.IsPositive():
			l = append(l, e("pool_order_matched", "order_direction", types.OrderDirectionBuy, "pair_id", q.PairId, "pool_id", q.Id, "matched_amount", dy, "paid_coin", cq(dx.Neg()), "received_coin", cb(dy)))
		case dy.IsNegative():
			l = append(l, e("pool_order_matched", "order_direction", types.OrderDirectionSell, "pair_id", q.PairId, "pool_id", q.Id, "matched_amount", dy.Neg(), "paid_coin", cb(dy.Neg()), "received_coin", cq(dx)))
		}
	}
	return
}

func init() {
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	vf.Register(&vf.Harness{
		Name: "eventmsgs", Props: []string{"C17"}, Setup: newWorld,
		Bounds: "one message of each kind but parameter updates, accepted or not, in a world with two pairs, two pools, orders and requests of two users: deposits, withdrawals, order amounts and offers of any size (orders at four prices off and on the grid, ranged pools of three concrete deposits), cancels of every live order, cancels of all orders in five sets of pairs",
		Funcs:  "msgServer and the keeper's CreatePair, CreatePool, CreateRangedPool, Deposit, Withdraw, placeOrder, CancelOrder, CancelAllOrders, FinishOrder and the events they emit",
		Must:   []string{"create_pair", "create_pool", "create_ranged_pool", "deposit", "withdraw", "limit_order", "market_order", "mm_order", "cancel_order", "cancel_all_orders", "order_result", "refused"},
		Run: func(t *vf.T) {
			r := start(t)
			kind := t.Choose("message", 10)
			p := r.mkPair(base, quote, "1")
			p2 := r.mkPair(other, quote, "")
			p.CurrentBatchId, p2.CurrentBatchId = 7, 5
			r.k.SetPair(r.ctx, p)
			r.k.SetPair(r.ctx, p2)
			u, v := addr(1), addr(2)
			n := math.NewInt(1000000)
			p1 := r.putPool(p, 1, kind == 1 || t.Bool("ranged"), n, n, n, "0.5", "2", false)
			r.putPool(p2, 2, true, n, n, n, "0.5", "2", false)
			exp := t0.Add(time.Hour)
			mk := func(p types.Pair, id uint64, typ types.OrderType, who sdk.AccAddress, d types.OrderDirection, batch uint64) {
				rem := t.Int(fmt.Sprint("remaining", p.Id, id), 0, e40)
				o := r.putOrder(p, id, typ, who, d, dec("1.5"), n, math.NewInt(int64(1000*p.Id+id)), rem, batch, types.OrderStatusPartiallyMatched, exp)
				o.ReceivedCoin.Amount = math.NewInt(int64(77*p.Id + id))
				r.k.SetOrder(r.ctx, o)
			}
			if kind >= 8 {
				d := dirs[t.Choose("dir", 2)]
				mk(p, 3, types.OrderTypeLimit, u, d, 6)
				mk(p, 5, types.OrderTypeMM, u, d, 7)
				mk(p, 12, types.OrderTypeMarket, u, d, 1)
				mk(p, 13, types.OrderTypeLimit, v, d, 1)
				mk(p2, 3, types.OrderTypeMM, u, d, 4)
			}
			fund := func(a, b math.Int) {
				r.fund(u, sdk.Coin{Denom: quote, Amount: a}, sdk.Coin{Denom: base, Amount: b})
				r.fund(u, r.k.GetPairCreationFee(r.ctx)...)
				r.fund(u, r.k.GetPoolCreationFee(r.ctx)...)
			}
			coins := func(lo int64) sdk.Coins {
				x, y := t.Int("x", lo, e40), t.Int("y", lo, e40)
				fund(x, y)
				return sdk.NewCoins(sdk.NewCoin(quote, x), sdk.NewCoin(base, y))
			}
			var w *watched
			var err error
			var want []ev
			switch kind {
			case 0:
				fund(n, n)
				b := []string{"abc", other, quote}[t.Choose("base", 3)]
				w = r.watch()
				_, err = r.ms.CreatePair(r.ctx, types.NewMsgCreatePair(u, b, quote))
				if err == nil {
					q := r.pair(3)
					want = []ev{e("create_pair", "creator", u, "base_coin_denom", b, "quote_coin_denom", quote, "pair_id", 3, "escrow_address", q.EscrowAddress)}
				}
			case 1, 2:
				cs := sdk.Coins{}
				if kind == 1 {
					cs = coins(1)
				} else {
					a := []int64{1000000, 1234567890, 5}[t.Choose("deposit", 3)]
					cs = sdk.NewCoins(sdk.NewInt64Coin(quote, a), sdk.NewInt64Coin(base, 2000000))
					fund(cs.AmountOf(quote), cs.AmountOf(base))
				}
				w = r.watch()
				typ := "create_pool"
				if kind == 1 {
					_, err = r.ms.CreatePool(r.ctx, types.NewMsgCreatePool(u, 1, cs))
				} else {
					typ = "create_ranged_pool"
					_, err = r.ms.CreateRangedPool(r.ctx, types.NewMsgCreateRangedPool(u, 1, cs, dec("0.5"), dec("2"), dec("1.1")))
				}
				if err == nil {
					q, _ := r.k.GetPool(r.ctx, 3)
					want = []ev{e(typ, "creator", u, "pair_id", 1, "deposit_coins", cs, "pool_id", 3, "reserve_address", q.ReserveAddress,
						"minted_pool_coin", sdk.Coin{Denom: q.PoolCoinDenom, Amount: r.bal(u, q.PoolCoinDenom)})}
				}
			case 3:
				cs := coins(0)
				w = r.watch()
				err = r.deposit(u, 1, cs)
				if err == nil {
					q, _ := r.k.GetDepositRequest(r.ctx, 1, 1)
					want = []ev{e("deposit", "depositor", u, "pool_id", 1, "deposit_coins", q.DepositCoins, "request_id", 1)}
				}
			case 4:
				c := sdk.Coin{Denom: p1.PoolCoinDenom, Amount: t.Int("pool coins", 0, e40)}
				r.fund(u, sdk.NewCoin(c.Denom, n))
				w = r.watch()
				err = r.withdraw(u, 1, c)
				if err == nil {
					q, _ := r.k.GetWithdrawRequest(r.ctx, 1, 1)
					want = []ev{e("withdraw", "withdrawer", u, "pool_id", 1, "pool_coin", q.PoolCoin, "request_id", 1)}
				}
			case 5, 6, 7:
				typ := kind - 5
				d := dirs[t.Choose("dir", 2)]
				od, dd := denomsOf(d)
				pr := dec([]string{"1", "1.012345678", "0.95", "0.987654321"}[t.Choose("price", 4)])
				if typ == tMarket {
					pr = dec("1")
				}
				amt, off := t.Int("amount", 100, vf.Pow10(30)), t.Int("offer", 100, vf.Pow10(31))
				fund(off, off)
				id := p.LastOrderId + 1
				w = r.watch()
				err = r.place(typ, u, 1, d, sdk.NewCoin(od, off), dd, pr, amt, 90*time.Minute)
				if err == nil {
					o, _ := r.k.GetOrder(r.ctx, 1, id)
					want = []ev{e([]string{"limit_order", "mm_order", "market_order"}[typ], "orderer", u, "pair_id", 1, "order_direction", d, "offer_coin", o.OfferCoin,
						"demand_coin_denom", dd, "price", o.Price, "amount", amt, "order_id", id, "batch_id", 7, "expire_at", "2024-01-01T01:30:00Z",
						"refunded_coins", sdk.Coin{Denom: od, Amount: off.Sub(o.OfferCoin.Amount)})}
				}
			case 8:
				id := []uint64{3, 5, 12, 13, 9}[t.Choose("order", 5)]
				pid := uint64(1 + t.Choose("pair", 2))
				w = r.watch()
				_, err = r.ms.CancelOrder(r.ctx, types.NewMsgCancelOrder(u, pid, id))
				if err == nil {
					l, _ := w.ended()
					t.Check("C17", "one order is canceled", len(l) == 1)
					want = append(l, e("cancel_order", "orderer", u, "pair_id", pid, "order_id", id))
				}
			case 9:
				ids := [][]uint64{nil, {1}, {2}, {2, 1}, {1, 9}}[t.Choose("pairs", 5)]
				w = r.watch()
				_, err = r.ms.CancelAllOrders(r.ctx, types.NewMsgCancelAllOrders(u, ids))
				if err == nil {
					l, c := w.ended()
					var s []string
					for _, i := range ids {
						s = append(s, fmt.Sprint(i))
					}
					want = append(l, e("cancel_all_orders", "orderer", u, "pair_ids", strings.Join(s, ","), "canceled_order_ids", strings.Join(c, ",")))
				}
			}
			if err != nil {
				t.Reach("refused")
				return // its events are dropped with the transaction
			}
			r.reports(want)
		},
	})
	vf.Register(&vf.Harness{
		Name: "eventbatch", Props: []string{"C17"}, Setup: newWorld,
		Bounds: "the end of a batch with one order of any amount (100..10^12) against two others, one expiring, and a basic or ranged pool or none; with a deposit and a withdrawal of any amount (1..10^9) while the orders do not meet",
		Funcs:  "EndBlocker; ExecuteRequests, ApplyMatchResult, FinishOrder, ExecuteDepositRequest, FinishDepositRequest, ExecuteWithdrawRequest, FinishWithdrawRequest and the events they emit",
		Must:   []string{"order_result", "user_order_matched", "pool_order_matched", "deposit_result", "withdrawal_result"},
		Run: func(t *vf.T) {
			r := start(t)
			ps := r.k.GetParams(r.ctx)
			ps.TickPrecision, ps.MaxPriceLimitRatio = 2, dec("0.1")
			r.k.SetParams(r.ctx, ps)
			p := r.mkPair(base, quote, []string{"", "1"}[t.Choose("last", 2)])
			p3 := r.mkPair(other, quote, "")
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			pool := t.Choose("pool", 4)
			switch pool {
			case 1:
				r.mkPool(p.Id, 1, 2000003, 2000000, "", "", "")
			case 2:
				r.mkPool(p.Id, 2, 3000000, 2000000, "0.9", "1.2", "1.01")
			case 3:
				r.putPool(p, 1, false, math.NewInt(0), math.NewInt(55), math.NewInt(100), "", "", false)
			}
			r.putPool(p3, 2, true, math.NewInt(300), math.NewInt(4000000), math.NewInt(1000000), "0.5", "2", false)
			side := t.Choose("side", 2)
			d, opp := dirs[side], dirs[1-side]
			far := map[types.OrderDirection]string{buy: "1.04", sell: "0.97"}
			put := func(id uint64, typ types.OrderType, d types.OrderDirection, pr string, a math.Int, batch uint64, life time.Duration) {
				rem := a
				if d == types.OrderDirectionBuy {
					rem = ceilMul(dec(pr), a)
				}
				o := r.putOrder(p, id, typ, addr(int(id)), d, dec(pr), a.AddRaw(7), a, rem, batch, types.OrderStatusPartiallyMatched, t0.Add(life))
				o.ReceivedCoin.Amount = math.NewInt(7)
				r.k.SetOrder(r.ctx, o)
			}
			if t.Bool("requests") {
				put(1, types.OrderTypeLimit, sell, "1.05", math.NewInt(150), 6, time.Hour)
				put(2, types.OrderTypeMM, buy, "0.95", math.NewInt(300), 6, 0)
				if pool != 0 && pool != 2 || t.Bool("other pool") { // a ranged pool of both coins divides by the amounts
					pid := uint64(2)
					d1, d2 := other, quote
					if pool == 1 || pool == 3 {
						pid, d1 = 1, base
					}
					a := t.Int("deposit", 1, 1000000000)
					b := t.Int("withdrawal", 1, 100)
					u := addr(9)
					if t.Bool("withdraw") {
						pc := types.PoolCoinDenom(pid)
						if pid == 1 && pool == 1 {
							b = b.MulRaw(1000000)
						}
						r.fund(u, sdk.NewCoin(pc, b))
						r.must(r.withdraw(u, pid, sdk.NewCoin(pc, b)))
					} else {
						cs := sdk.NewCoins(sdk.NewCoin(d1, a), sdk.NewInt64Coin(d2, 5000))
						r.fund(u, cs...)
						r.must(r.deposit(u, pid, cs))
					}
				}
			} else {
				put(1, types.OrderTypeLimit, d, far[d], t.Int("amount", 100, vf.Pow10(12)), 7, time.Hour)
				put(2, types.OrderTypeMM, opp, "1.01", math.NewInt(3000), 6, time.Hour)
				put(3, types.OrderTypeLimit, opp, "1", math.NewInt(777), 5, time.Duration(t.Choose("life", 2)))
			}
			w := r.watch()
			r.endBlock()
			r.reports(w.batch())
			t.Reach("done")
		},
	})
}
