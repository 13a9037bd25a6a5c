package main

import (
	"fmt"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// Orders and requests wait for the end of the batch, are executed once there and are gone in the block after.
func init() {
	vf.Register(&vf.Harness{
		Name: "timing", Props: []string{"C21", "C12", "C13", "C10"}, Setup: newWorld,
		Bounds: "batch sizes 1, 2, 3 and 5, placement in any block of the batch, one buy order (limit or market making, lifespans 0 s, 1 s, 7 s, 1 h, blocks 5 s apart), one deposit and one withdrawal with symbolic amounts 0..10^26, followed through two batches, canceled in any block of the second one",
		Funcs:  "AppModule.BeginBlock, EndBlock; BeginBlocker, EndBlocker; Keeper.ExecuteRequests, DeleteOutdatedRequests, ExecuteMatching, FinishOrder; Order.ExpiredAt, OrderStatus.ShouldBeDeleted, RequestStatus.ShouldBeDeleted",
		Must:   []string{"waiting", "executed", "expired", "alive", "canceled"},
		Run: func(t *vf.T) {
			r := start(t)
			bs := []int64{1, 2, 3, 5}[t.Choose("batch size", 4)]
			pr := r.k.GetParams(r.ctx)
			pr.BatchSize = uint32(bs)
			r.k.SetParams(r.ctx, pr)
			p := r.mkPair(base, quote, "")
			p2 := r.mkPair(other, quote, "")
			r.putPool(p, 1, false, math.NewInt(1000003), math.NewInt(777777), math.NewInt(1000000000), "0.5", "2", false)
			pool2 := r.putPool(r.mkPair(base, other, ""), 2, false, math.NewInt(1000003), math.NewInt(777777), math.NewInt(1000000000), "0.5", "2", false)
			h := 30 + int64(t.Choose("block", int(bs)))
			r.at(h, t0)
			r.beginBlock()
			u := addr(1)
			gesc := types.GlobalEscrowAddress
			life := []time.Duration{0, time.Second, 7 * time.Second, time.Hour}[t.Choose("lifespan", 4)]
			typ := types.OrderTypeLimit
			if t.Bool("mm") {
				typ = types.OrderTypeMM
			}
			kind := t.Choose("what", 3)
			amt := math.NewInt(5000)
			x, w := math.NewInt(1234), math.NewInt(7)
			switch kind {
			case 0:
				amt = t.Int("amount", 100, vf.Pow10(26))
			case 1:
				x = t.Int("x", 1, vf.Pow10(26))
			case 2:
				w = t.Int("w", 1, vf.Pow10(26))
			}
			price := dec("1.5")
			offer := ceilMul(price, amt)
			r.fund(u, sdk.NewCoin(quote, offer.Add(x)), sdk.NewCoin(base, x), sdk.NewCoin(pool2.PoolCoinDenom, w))
			before := r.snap([]sdk.AccAddress{u}, quote, base)
			if typ == types.OrderTypeMM {
				_, err := r.ms.MMOrder(r.ctx, types.NewMsgMMOrder(u, p2.Id, types.OrderDirectionBuy, sdk.NewCoin(quote, offer), other, price, amt, life))
				r.must(err)
			} else {
				_, err := r.ms.LimitOrder(r.ctx, types.NewMsgLimitOrder(u, p2.Id, types.OrderDirectionBuy, sdk.NewCoin(quote, offer), other, price, amt, life))
				r.must(err)
			}
			r.must(r.deposit(u, 1, sdk.NewCoins(sdk.NewCoin(quote, x), sdk.NewCoin(base, x))))
			r.must(r.withdraw(u, 2, sdk.NewCoin(pool2.PoolCoinDenom, w)))
			o, ok := r.k.GetOrder(r.ctx, p2.Id, 1)
			t.Check("C21", "an order expires after its lifespan", ok && o.ExpireAt.Equal(t0.Add(life)) && o.Status == types.OrderStatusNotExecuted)
			pr0 := r.pair(p2.Id)
			t.Check("C21", "an order belongs to the current batch", o.BatchId == pr0.CurrentBatchId)

			now := t0
			step := func() { r.nextBlock(5 * time.Second); now = now.Add(5 * time.Second) }
			state := func(tag string) {
				dr, ok := r.k.GetDepositRequest(r.ctx, 1, 1)
				t.Check("C12", tag+": the deposit waits", ok && dr.Status == types.RequestStatusNotExecuted)
				wr, ok := r.k.GetWithdrawRequest(r.ctx, 2, 1)
				t.Check("C13", tag+": the withdrawal waits", ok && wr.Status == types.RequestStatusNotExecuted)
				t.Check("C21", tag+": the order waits unchanged", r.unchanged(o))
				t.Check("C21", tag+": requests wait", r.bal(gesc, quote).Equal(x) && r.bal(gesc, base).Equal(x) && r.bal(gesc, pool2.PoolCoinDenom).Equal(w) && r.bal(esc(p2), quote).Equal(offer))
				t.Check("C10", tag+": an order cannot be canceled in its own batch", r.cancel(u, p2.Id, 1) != nil)
				t.Check("C21", tag+": same batch", r.pair(p2.Id).CurrentBatchId == pr0.CurrentBatchId)
			}
			state("placed")
			for r.ctx.BlockHeight()%bs != 0 {
				t.Reach("waiting")
				r.endBlock()
				state(fmt.Sprint("end of a block before the batch ends"))
				step()
				state(fmt.Sprint("a block later"))
			}
			r.endBlock()
			t.Reach("executed")
			due := life <= now.Sub(t0)
			want := types.OrderStatusNotMatched
			if due {
				want = types.OrderStatusExpired
				t.Reach("expired")
			} else {
				t.Reach("alive")
			}
			t.Check("C21", "the order is due or stays at the batch's end", r.endedAs(o, want))
			t.Check("C21", "the next batch begins", r.pair(p2.Id).CurrentBatchId == pr0.CurrentBatchId+1)
			dr, ok := r.k.GetDepositRequest(r.ctx, 1, 1)
			t.Check("C12", "the deposit is executed at the batch's end", ok && dr.Status != types.RequestStatusNotExecuted)
			wr, ok := r.k.GetWithdrawRequest(r.ctx, 2, 1)
			t.Check("C13", "the withdrawal is executed at the batch's end", ok && wr.Status != types.RequestStatusNotExecuted)
			t.Check("C21", "requests executed at the batch's end leave nothing in escrow", r.bal(gesc, quote).IsZero() && r.bal(gesc, base).IsZero() && r.bal(gesc, pool2.PoolCoinDenom).IsZero())
			paid := math.ZeroInt()
			if !due {
				paid = offer
			}
			got := dr.AcceptedCoins
			t.Eq("C21", "at the batch's end the account holds what was refunded", r.delta(before, u, quote), got.AmountOf(quote).Neg().Sub(paid))
			step()
			_, d1 := r.k.GetDepositRequest(r.ctx, 1, 1)
			_, w1 := r.k.GetWithdrawRequest(r.ctx, 2, 1)
			t.Check("C12", "an executed deposit is removed in the next block", !d1 && len(r.k.GetDepositRequestsByDepositor(r.ctx, u)) == 0)
			t.Check("C13", "an executed withdrawal is removed in the next block", !w1 && len(r.k.GetWithdrawRequestsByWithdrawer(r.ctx, u)) == 0)
			_, o1 := r.k.GetOrder(r.ctx, p2.Id, 1)
			t.Check("C21", "a finished order is removed in the next block, a live one stays", o1 == !due && (len(r.k.GetOrdersByOrderer(r.ctx, u)) == 1) == !due)
			if due {
				return
			}
			o.Status = types.OrderStatusNotMatched
			for _, id := range []uint64{1, 2} { // the pools' own orders are C11's subject
				pl, _ := r.k.GetPool(r.ctx, id)
				r.k.MarkPoolAsDisabled(r.ctx, pl)
			}
			// in one of the second batch's blocks the order may be canceled
			when, n := t.Choose("cancel", int(bs)+1), 0
			canceled := func() bool {
				if n++; n != when {
					return false
				}
				t.Reach("canceled")
				t.Check("C10", "a live order can be canceled in a later batch", r.cancel(u, p2.Id, 1) == nil)
				t.Check("C10", "a canceled order keeps its data", r.endedAs(o, types.OrderStatusCanceled))
				r.endBlock()
				t.Check("C21", "a canceled order does not change any more", r.endedAs(o, types.OrderStatusCanceled))
				t.Eq("C21", "nothing of a canceled order is left in escrow", r.bal(esc(p2), quote), math.ZeroInt())
				step()
				_, left := r.k.GetOrder(r.ctx, p2.Id, 1)
				t.Check("C21", "a canceled order is removed in the next block", !left && len(r.k.GetOrdersByOrderer(r.ctx, u)) == 0)
				return true
			}
			for r.ctx.BlockHeight()%bs != 0 {
				if canceled() {
					return
				}
				r.endBlock()
				t.Check("C21", "a live order waits for the second batch's end", r.unchanged(o))
				step()
				t.Check("C21", "a live order waits for the second batch", r.unchanged(o))
			}
			if canceled() {
				return
			}
			r.endBlock()
			if life <= now.Sub(t0) {
				t.Check("C21", "the order is due at the second batch's end", r.endedAs(o, types.OrderStatusExpired))
				t.Eq("C21", "an order due is refunded", r.bal(esc(p2), quote), math.ZeroInt())
			} else {
				t.Check("C21", "the order outlives the second batch", r.unchanged(o))
			}
		},
	})
}

func (r *run) cancel(who sdk.AccAddress, pair, id uint64) error {
	m := types.NewMsgCancelOrder(who, pair, id)
	if err := m.ValidateBasic(); err != nil {
		return err
	}
	_, err := r.ms.CancelOrder(r.ctx, m)
	return err
}
