package main

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

var allStatus = []types.OrderStatus{types.OrderStatusNotExecuted, types.OrderStatusNotMatched, types.OrderStatusPartiallyMatched,
	types.OrderStatusCompleted, types.OrderStatusCanceled, types.OrderStatusExpired}

func live(s types.OrderStatus) bool {
	return s == types.OrderStatusNotExecuted || s == types.OrderStatusNotMatched || s == types.OrderStatusPartiallyMatched
}

// putOrder stores an order in an arbitrary state and moves what remains of its offer into escrow when it is live.
func (r *run) putOrder(p types.Pair, id uint64, typ types.OrderType, who sdk.AccAddress, dir types.OrderDirection, price math.LegacyDec, amt, open, remaining math.Int, batch uint64, status types.OrderStatus, expire time.Time) types.Order {
	od, dd := denomsOf(dir)
	if od == quote {
		od, dd = p.QuoteCoinDenom, p.BaseCoinDenom
	} else {
		od, dd = p.BaseCoinDenom, p.QuoteCoinDenom
	}
	offer := amt
	if dir == types.OrderDirectionBuy {
		offer = ceilMul(price, amt)
	}
	o := types.Order{Type: typ, Id: id, PairId: p.Id, MsgHeight: 1, Orderer: who.String(), Direction: dir,
		OfferCoin: sdk.Coin{Denom: od, Amount: offer}, RemainingOfferCoin: sdk.Coin{Denom: od, Amount: remaining},
		ReceivedCoin: sdk.Coin{Denom: dd, Amount: math.ZeroInt()}, Price: price, Amount: amt, OpenAmount: open, BatchId: batch, ExpireAt: expire, Status: status}
	r.k.SetOrder(r.ctx, o)
	r.k.SetOrderIndex(r.ctx, o)
	if live(status) {
		r.fund(esc(p), sdk.Coin{Denom: od, Amount: remaining})
		if typ == types.OrderTypeMM {
			r.k.SetNumMMOrders(r.ctx, who, p.Id, r.k.GetNumMMOrders(r.ctx, who, p.Id)+1)
		}
	}
	if q := r.pair(p.Id); q.LastOrderId < id {
		q.LastOrderId = id
		r.k.SetPair(r.ctx, q)
	}
	return o
}

// unchanged says that a stored order is exactly as before.
func (r *run) unchanged(o types.Order) bool {
	c, ok := r.k.GetOrder(r.ctx, o.PairId, o.Id)
	return ok && same(c, o)
}

func same(c, o types.Order) bool {
	return c.Type == o.Type && c.Id == o.Id && c.PairId == o.PairId && c.MsgHeight == o.MsgHeight && c.Orderer == o.Orderer &&
		c.Direction == o.Direction && c.OfferCoin.Denom == o.OfferCoin.Denom && c.RemainingOfferCoin.Denom == o.RemainingOfferCoin.Denom && c.ReceivedCoin.Denom == o.ReceivedCoin.Denom &&
		c.OfferCoin.Amount.Equal(o.OfferCoin.Amount) && c.RemainingOfferCoin.Amount.Equal(o.RemainingOfferCoin.Amount) && c.ReceivedCoin.Amount.Equal(o.ReceivedCoin.Amount) &&
		c.Price.Equal(o.Price) && c.Amount.Equal(o.Amount) && c.OpenAmount.Equal(o.OpenAmount) && c.BatchId == o.BatchId && c.ExpireAt.Equal(o.ExpireAt) && c.Status == o.Status
}

// canceled says that the stored order is o with status st and nothing else changed.
func (r *run) endedAs(o types.Order, st types.OrderStatus) bool {
	c, ok := r.k.GetOrder(r.ctx, o.PairId, o.Id)
	o.Status = st
	return ok && same(c, o)
}

func init() {
	vf.Register(&vf.Harness{
		Name: "cancel", Props: []string{"C10"}, Setup: newWorld,
		Bounds: "two orders of two owners in one pair and one in another pair, the first of any type, direction, status and batch, open and remaining amounts symbolic 0..10^40; a cancel message by either owner for any order, a missing one or a wrong pair, then a second one",
		Funcs:  "msgServer.CancelOrder; Keeper.CancelOrder, ValidateMsgCancelOrder, FinishOrder, Get/SetOrder, Get/Set/DeleteNumMMOrders; bank SendCoins",
		Must:   []string{"canceled", "rejected", "noop"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, "")
			p2 := r.mkPair(base, other, "")
			p.CurrentBatchId = 7
			r.k.SetPair(r.ctx, p)
			u, v := addr(1), addr(2)
			typ := []types.OrderType{types.OrderTypeLimit, types.OrderTypeMM, types.OrderTypeMarket}[t.Choose("type", 3)]
			dir := dirs[t.Choose("dir", 2)]
			st := allStatus[t.Choose("status", 6)]
			batch := []uint64{7, 6, 1}[t.Choose("batch", 3)]
			amt := t.Int("amount", 100, e40)
			open := t.Int("open", 0, e40)
			rem := t.Int("remaining", 0, e40)
			exp := t0.Add(time.Hour)
			o := r.putOrder(p, 3, typ, u, dir, dec("1.5"), amt, open, rem, batch, st, exp)
			b := r.putOrder(p, 4, types.OrderTypeMM, v, dir, dec("1.5"), amt, open, math.NewInt(777), 2, types.OrderStatusNotMatched, exp)
			c := r.putOrder(p2, 3, types.OrderTypeLimit, u, dir, dec("1.5"), amt, open, math.NewInt(888), 2, types.OrderStatusNotMatched, exp)
			mm := r.k.GetNumMMOrders(r.ctx, u, p.Id)
			accs := []sdk.AccAddress{u, v, esc(p), esc(p2)}
			before := r.snap(accs, base, quote, other)

			who, pid, oid := u, p.Id, uint64(3)
			tgt := t.Choose("message", 5)
			switch tgt {
			case 1:
				who = v
			case 2:
				oid = 5
			case 3:
				pid = 3
			case 4:
				who, pid = v, p2.Id
			}
			m := types.NewMsgCancelOrder(who, pid, oid)
			r.must(m.ValidateBasic())
			_, err := r.ms.CancelOrder(r.ctx, m)
			valid := tgt == 0 && st != types.OrderStatusCanceled && batch != 7
			t.Check("C10", "accepted exactly when allowed", (err == nil) == valid)
			od := o.OfferCoin.Denom
			refund := math.ZeroInt()
			if valid && live(st) {
				t.Reach("canceled")
				refund = rem
				t.Check("C10", "marked canceled", r.endedAs(o, types.OrderStatusCanceled))
				n := mm
				if typ == types.OrderTypeMM {
					n--
				}
				t.Check("C10", "market making count", r.k.GetNumMMOrders(r.ctx, u, p.Id) == n)
				_, err = r.ms.CancelOrder(r.ctx, m)
				t.Check("C10", "second cancel refused", err != nil)
			} else {
				if valid {
					t.Reach("noop")
				} else {
					t.Reach("rejected")
				}
				t.Check("C10", "order untouched", r.unchanged(o))
				t.Check("C10", "market making count untouched", r.k.GetNumMMOrders(r.ctx, u, p.Id) == mm)
			}
			t.Observe("refund", refund)
			t.Eq("C10", "the owner gets the remaining offer once", r.delta(before, u, od), refund)
			t.Eq("C10", "out of the pair's escrow", r.delta(before, esc(p), od), refund.Neg())
			dd := o.ReceivedCoin.Denom
			t.Check("C10", "nothing else moves", r.delta(before, u, dd).IsZero() && r.delta(before, esc(p), dd).IsZero() && r.delta(before, v, od).IsZero() && r.delta(before, v, dd).IsZero() &&
				r.delta(before, esc(p2), base).IsZero() && r.delta(before, esc(p2), other).IsZero())
			t.Check("C10", "other orders untouched", r.unchanged(b) && r.unchanged(c) && r.k.GetNumMMOrders(r.ctx, v, p.Id) == 1)
		},
	})
	lists := [][]uint64{{}, {1}, {2}, {2, 1}, {3}, {1, 9}}
	vf.Register(&vf.Harness{
		Name: "cancelall", Props: []string{"C10"}, Setup: newWorld,
		Bounds: "one owner with two orders in one pair and one in another, statuses and batches any, another owner's order; remaining amounts symbolic 0..10^40; cancel-all for no, one, two, an unknown pair",
		Funcs:  "msgServer.CancelAllOrders; Keeper.CancelAllOrders, FinishOrder, IterateOrdersByOrderer; bank SendCoins",
		Must:   []string{"ok", "rejected"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, "")
			p2 := r.mkPair(other, quote, "")
			r.mkPair(other, base, "")
			p.CurrentBatchId, p2.CurrentBatchId = 7, []uint64{7, 5, 9}[t.Choose("batch of the other pair", 3)]
			for _, q := range []types.Pair{p, p2} {
				r.k.SetPair(r.ctx, q)
			}
			u, v := addr(1), addr(2)
			dir := dirs[t.Choose("dir", 2)]
			exp := t0.Add(time.Hour)
			type ord struct {
				o types.Order
				p types.Pair
			}
			var os []ord
			for i, q := range []types.Pair{p, p, p2} {
				nm := string(rune('a' + i))
				st, batch := allStatus[1], q.CurrentBatchId-1
				if i == 0 {
					st = allStatus[t.Choose("status", 6)]
				} else if t.Bool("same batch " + nm) {
					batch = q.CurrentBatchId
				}
				typ := types.OrderTypeLimit
				if i < 2 {
					typ = types.OrderTypeMM
				}
				os = append(os, ord{r.putOrder(q, uint64(i+1), typ, u, dir, dec("1.5"), math.NewInt(1000), math.NewInt(500), t.Int("remaining "+nm, 0, e40), batch, st, exp), q})
			}
			b := r.putOrder(p, 9, types.OrderTypeMM, v, dir, dec("1.5"), math.NewInt(1000), math.NewInt(500), t.Int("remaining v", 1, e40), 2, types.OrderStatusNotMatched, exp)
			mm := r.k.GetNumMMOrders(r.ctx, u, p.Id)
			ds := []string{base, quote, other}
			accs := []sdk.AccAddress{u, v, esc(p), esc(p2)}
			before := r.snap(accs, ds...)
			list := lists[t.Choose("pairs", len(lists))]
			in := func(id uint64) bool {
				for _, x := range list {
					if x == id {
						return true
					}
				}
				return len(list) == 0
			}
			m := types.NewMsgCancelAllOrders(u, list)
			r.must(m.ValidateBasic())
			_, err := r.ms.CancelAllOrders(r.ctx, m)
			bad := len(list) == 2 && list[1] == 9
			t.Check("C10", "rejected for an unknown pair only", (err != nil) == bad)
			if bad {
				t.Reach("rejected")
				return
			}
			t.Reach("ok")
			got := map[string]math.Int{}
			add := func(k string, x math.Int) {
				if y, ok := got[k]; ok {
					x = x.Add(y)
				}
				got[k] = x
			}
			for _, d := range ds {
				add("u"+d, math.ZeroInt())
				add("1"+d, math.ZeroInt())
				add("2"+d, math.ZeroInt())
			}
			for _, x := range os {
				if in(x.p.Id) && live(x.o.Status) && x.o.BatchId < x.p.CurrentBatchId {
					t.Check("C10", "all: canceled", r.endedAs(x.o, types.OrderStatusCanceled))
					add("u"+x.o.OfferCoin.Denom, x.o.RemainingOfferCoin.Amount)
					add(string(rune('0'+x.p.Id))+x.o.OfferCoin.Denom, x.o.RemainingOfferCoin.Amount.Neg())
					if x.o.Type == types.OrderTypeMM {
						mm--
					}
				} else {
					t.Check("C10", "all: untouched", r.unchanged(x.o))
				}
			}
			for _, d := range ds {
				t.Eq("C10", "all: refunded once "+d, r.delta(before, u, d), got["u"+d])
				t.Eq("C10", "all: escrow 1 "+d, r.delta(before, esc(p), d), got["1"+d])
				t.Eq("C10", "all: escrow 2 "+d, r.delta(before, esc(p2), d), got["2"+d])
				t.Check("C10", "all: others get nothing", r.delta(before, v, d).IsZero())
			}
			t.Check("C10", "all: market making count", r.k.GetNumMMOrders(r.ctx, u, p.Id) == mm)
			t.Check("C10", "all: others' orders untouched", r.unchanged(b) && r.k.GetNumMMOrders(r.ctx, v, p.Id) == 1)
		},
	})
	vf.Register(&vf.Harness{
		Name: "expire", Props: []string{"C10", "C21"}, Setup: newWorld,
		Bounds: "two non-crossing orders, the first of any type, direction, status, and expiry one nanosecond before, at or after the block time or never reached, price 0.03 (thorough also 1.5 and 2000), open and remaining amounts symbolic 0..10^40; one block end, the next block begin, a further block",
		Funcs:  "BeginBlocker, EndBlocker; Keeper.ExecuteRequests, ExecuteMatching, FinishOrder, DeleteOutdatedRequests, DeleteOrder; Order.ExpiredAt, CanBeExpired, ShouldBeDeleted; IsTooSmallOrderAmount",
		Must:   []string{"expired", "kept", "too small"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, "")
			p.CurrentBatchId = 7
			if t.Bool("last price") {
				lp := dec("1.5")
				p.LastPrice = &lp
			}
			r.k.SetPair(r.ctx, p)
			u, v := addr(1), addr(2)
			typ := []types.OrderType{types.OrderTypeLimit, types.OrderTypeMM, types.OrderTypeMarket}[t.Choose("type", 3)]
			dir := dirs[t.Choose("dir", 2)]
			st := allStatus[t.Choose("status", 6)]
			batch := uint64(6)
			if st == types.OrderStatusNotExecuted {
				batch = 7
			}
			np := 1
			if t.Thorough() {
				np = 3
			}
			price := dec([]string{"0.03", "1.5", "2000"}[t.Choose("price", np)])
			open := t.Int("open", 0, e40)
			rem := t.Int("remaining", 0, e40)
			dt := []time.Duration{-1, 0, 1, time.Hour}[t.Choose("expire", 4)]
			o := r.putOrder(p, 3, typ, u, dir, price, t.Int("amount", 100, e40), open, rem, batch, st, t0.Add(dt))
			b := r.putOrder(p, 4, types.OrderTypeMM, v, dir, price, math.NewInt(20000), math.NewInt(20000), math.NewInt(777), 2, types.OrderStatusNotMatched, t0.Add(10*time.Hour))
			mm := r.k.GetNumMMOrders(r.ctx, u, p.Id)
			od := o.OfferCoin.Denom
			before := r.snap([]sdk.AccAddress{u, v, esc(p)}, base, quote)
			r.at(2, t0)
			r.endBlock()
			due := dt <= 0
			small := open.LT(math.NewInt(100)) || price.MulInt(open).LT(dec("100"))
			refund := math.ZeroInt()
			gone := false
			switch {
			case !live(st):
				t.Check("C10", "a finished order stays as it is", r.unchanged(o))
				gone = true
			case due || small:
				if due {
					t.Reach("expired")
				} else {
					t.Reach("too small")
				}
				refund = rem
				gone = true
				t.Check("C21", "an expired order is marked", r.endedAs(o, types.OrderStatusExpired))
			default:
				t.Reach("kept")
				want := st
				if st == types.OrderStatusNotExecuted {
					want = types.OrderStatusNotMatched
				}
				t.Check("C21", "a live order is not expired early", r.endedAs(o, want))
			}
			t.Observe("refund", refund)
			check := func() {
				t.Eq("C10", "expiry refunds the remaining offer once", r.delta(before, u, od), refund)
				t.Eq("C10", "expiry pays from escrow", r.delta(before, esc(p), od), refund.Neg())
				dd := o.ReceivedCoin.Denom
				t.Check("C10", "expiry moves nothing else", r.delta(before, u, dd).IsZero() && r.delta(before, esc(p), dd).IsZero() && r.delta(before, v, od).IsZero() && r.delta(before, v, dd).IsZero())
				t.Check("C10", "another order is untouched", r.unchanged(b))
				n := mm
				if gone && live(st) && typ == types.OrderTypeMM {
					n--
				}
				t.Check("C10", "expiry updates the market making count", r.k.GetNumMMOrders(r.ctx, u, p.Id) == n)
			}
			check()
			r.nextBlock(0)
			_, ok := r.k.GetOrder(r.ctx, p.Id, 3)
			t.Check("C21", "finished orders are deleted in the next block, others stay", ok == !gone)
			t.Check("C21", "nor listed any more", (len(r.k.GetOrdersByOrderer(r.ctx, u)) == 0) == gone)
			check()
			r.endBlock()
			if !gone && dt <= 0 {
				panic("unreachable")
			}
			check()
			// much later everything left is refunded
			r.nextBlock(20 * time.Hour)
			r.endBlock()
			if live(st) {
				refund = rem
			}
			t.Eq("C10", "in the end the whole remaining offer is back", r.delta(before, u, od), refund)
			t.Check("C10", "and the escrow is empty", r.bal(esc(p), od).IsZero())
		},
	})
}
