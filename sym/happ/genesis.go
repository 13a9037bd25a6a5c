package main

import (
	"encoding/json"
	"fmt"
	"time"

	"cosmossdk.io/math"
	"github.com/cosmos/cosmos-sdk/client"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	paramstypes "github.com/cosmos/cosmos-sdk/x/params/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

type genesisModule interface {
	InitGenesis(sdk.Context, codec.JSONCodec, json.RawMessage)
	ExportGenesis(sdk.Context, codec.JSONCodec) json.RawMessage
	ValidateGenesis(codec.JSONCodec, client.TxEncodingConfig, json.RawMessage) error
}

// dump reads the module's stores entirely.
func (r *run) dump(ctx sdk.Context) map[string]string {
	m := map[string]string{}
	it := ctx.KVStore(r.w.app.GetKey(types.StoreKey)).Iterator(nil, nil)
	for ; it.Valid(); it.Next() {
		m["dex/"+string(it.Key())] = string(it.Value())
	}
	it.Close()
	pre := types.ModuleName + "/"
	it = ctx.KVStore(r.w.app.GetKey(paramstypes.StoreKey)).Iterator([]byte(pre), []byte(types.ModuleName+"0"))
	for ; it.Valid(); it.Next() {
		m["params/"+string(it.Key())] = string(it.Value())
	}
	it.Close()
	return m
}

func (r *run) wipe(ctx sdk.Context) {
	for k := range r.dump(ctx) {
		if k[:4] == "dex/" {
			ctx.KVStore(r.w.app.GetKey(types.StoreKey)).Delete([]byte(k[4:]))
		} else {
			ctx.KVStore(r.w.app.GetKey(paramstypes.StoreKey)).Delete([]byte(k[7:]))
		}
	}
}

// sameDump compares two dumps; returns the first difference.
func sameDump(a, b map[string]string) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("%x missing", k)
		}
		if v != w {
			return fmt.Sprintf("%x: %x became %x", k, v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%x added", k)
		}
	}
	return ""
}

// roundTrip exports the module's state, validates it, imports it into an empty module and compares.
func (r *run) roundTrip(when string) {
	t := r.t
	am := r.module().(genesisModule)
	cdc := r.w.app.AppCodec()
	before := r.dump(r.ctx)
	bz := am.ExportGenesis(r.ctx, cdc)
	err := am.ValidateGenesis(cdc, nil, bz)
	t.Check("C16", when+": the exported state is valid", err == nil)
	if d := sameDump(before, r.dump(r.ctx)); d != "" {
		t.Failf("C16", when+": exporting changes nothing", d)
	}
	if err != nil {
		return
	}
	c, _ := r.ctx.CacheContext()
	r.wipe(c)
	am.InitGenesis(c, cdc, bz)
	if d := sameDump(before, r.dump(c)); d != "" {
		t.Failf("C16", when+": importing restores the whole state", d)
	}
	if again := am.ExportGenesis(c, cdc); string(again) != string(bz) {
		t.Failf("C16", when+": exporting again gives the same", "")
	}
}

// place an order by message; concrete amounts
func (r *run) order(typ types.OrderType, who sdk.AccAddress, p types.Pair, dir types.OrderDirection, price string, amt int64, life time.Duration) error {
	od, dd := p.QuoteCoinDenom, p.BaseCoinDenom
	if dir == types.OrderDirectionSell {
		od, dd = dd, od
	}
	a := math.NewInt(amt)
	offer := a
	if dir == types.OrderDirectionBuy {
		offer = ceilMul(dec(price), a)
		if typ == types.OrderTypeMarket {
			offer = offer.MulRaw(2)
		}
	}
	r.fund(who, sdk.NewCoin(od, offer))
	c, write := r.ctx.CacheContext()
	var err error
	switch typ {
	case types.OrderTypeLimit:
		_, err = r.ms.LimitOrder(c, types.NewMsgLimitOrder(who, p.Id, dir, sdk.NewCoin(od, offer), dd, dec(price), a, life))
	case types.OrderTypeMarket:
		_, err = r.ms.MarketOrder(c, types.NewMsgMarketOrder(who, p.Id, dir, sdk.NewCoin(od, offer), dd, a, life))
	case types.OrderTypeMM:
		_, err = r.ms.MMOrder(c, types.NewMsgMMOrder(who, p.Id, dir, sdk.NewCoin(od, offer), dd, dec(price), a, life))
	}
	if err == nil {
		write()
	}
	return err
}

var orderTypes = []types.OrderType{types.OrderTypeLimit, types.OrderTypeMarket, types.OrderTypeMM}

// history runs a scenario with everything in it up to the n-th stop.
func (r *run) history(stop int) {
	pr := r.k.GetParams(r.ctx)
	pr.BatchSize = 2
	pr.TickPrecision = 2
	r.k.SetParams(r.ctx, pr)
	r.at(2, t0)
	h := func(n int) bool { return stop == n }
	r.k.SetLastPairId(r.ctx, 0)
	r.k.SetLastPoolId(r.ctx, 0)
	if h(0) {
		return
	}
	p := r.mkPair(base, quote, "1")
	p2 := r.mkPair(quote, base, "")
	p3 := r.mkPair(base, other, "2")
	r.mkPool(p.Id, 1, 5000000, 5000000, "", "", "")
	q2 := r.mkPool(p.Id, 2, 5000000, 5000000, "0.5", "2", "1")
	q3 := r.mkPool(p2.Id, 1, 7000000, 6000000, "", "", "")
	q4 := r.mkPool(p3.Id, 2, 7000000, 6000000, "0.5", "2", "2") // one-sided
	if h(1) {
		return
	}
	u, v := addr(1), addr(2)
	long := "a-very-long-coin-denomination/with-many-characters"
	p4 := r.mkPair(long, base, "")
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	r.nextBlock(time.Minute)
	r.must(r.order(types.OrderTypeLimit, u, p, buy, "1.02", 300000, 0))
	r.must(r.order(types.OrderTypeLimit, u, p, sell, "1.05", 900000, time.Hour))
	r.must(r.order(types.OrderTypeMM, v, p, sell, "0.99", 500000, time.Hour))
	r.must(r.order(types.OrderTypeMM, v, p, buy, "0.95", 700000, time.Hour))
	r.must(r.order(types.OrderTypeMarket, v, p, buy, "1", 400000, time.Second))
	r.must(r.order(types.OrderTypeLimit, v, p4, sell, "0.000123", 900000, time.Hour))
	r.must(r.order(types.OrderTypeMM, u, p4, buy, "0.000123", 5000000, 0))
	x, y := sdk.NewInt64Coin(quote, 50000), sdk.NewInt64Coin(base, 40000)
	r.fund(u, x.AddAmount(math.NewInt(100000)), y.AddAmount(math.NewInt(100000)))
	r.must(r.deposit(u, 1, sdk.NewCoins(x, y)))
	r.must(r.deposit(u, q2.Id, sdk.NewCoins(x)))
	r.must(r.deposit(u, q3.Id, sdk.NewCoins(x.SubAmount(math.NewInt(49999)), y)))
	c3 := addr(800 + int(p3.Id))
	r.must(r.withdraw(c3, q4.Id, sdk.NewCoin(q4.PoolCoinDenom, r.bal(c3, q4.PoolCoinDenom)))) // everything
	c1 := addr(800 + int(p.Id))
	r.must(r.withdraw(c1, q2.Id, sdk.NewInt64Coin(q2.PoolCoinDenom, 12345)))
	r.must(r.withdraw(c1, q2.Id, sdk.NewInt64Coin(q2.PoolCoinDenom, 1)))
	if h(2) { // inside a batch
		return
	}
	r.endBlock()
	if h(3) { // still inside
		return
	}
	r.nextBlock(time.Minute)
	r.endBlock()
	if h(4) { // the batch is finished, its results are still there
		return
	}
	r.nextBlock(time.Minute)
	if h(5) {
		return
	}
	for _, o := range r.k.GetOrdersByOrderer(r.ctx, v) {
		if o.Type == types.OrderTypeMM {
			_, err := r.ms.CancelOrder(r.ctx, types.NewMsgCancelOrder(v, o.PairId, o.Id))
			r.must(err)
		}
	}
	if h(6) {
		return
	}
	r.endBlock()
	r.nextBlock(2 * time.Hour)
	r.endBlock()
	if h(7) {
		return
	}
	r.nextBlock(time.Minute)
}

func init() {
	fn := "AppModule.ExportGenesis, InitGenesis, ValidateGenesis; Keeper.ExportGenesis, InitGenesis and the store accessors; GenesisState.Validate and Validate of Params, Pair, Pool, DepositRequest, WithdrawRequest, Order; the JSON and protobuf codecs"
	vf.Register(&vf.Harness{
		Name: "genesis", Props: []string{"C16"}, Setup: newWorld,
		Bounds: "the state at 9 points of a history with all kinds of pairs, pools, orders and requests, to which one order of any type, direction, status and age, one deposit, one withdrawal and a pair's last price are added with symbolic amounts up to 10^40",
		Funcs:  fn,
		Must:   []string{"order ORDER_STATUS_COMPLETED", "order ORDER_STATUS_EXPIRED", "order ORDER_STATUS_PARTIALLY_MATCHED", "deposit REQUEST_STATUS_SUCCEEDED", "withdraw REQUEST_STATUS_FAILED", "pool POOL_TYPE_RANGED true", "mm records"},
		Run: func(t *vf.T) {
			r := start(t)
			stop := t.Choose("point", 9)
			r.history(stop)
			if stop > 0 {
				p := r.pair(1)
				what := t.Choose("added", 4)
				amt := t.Int("amount", 1, e40)
				switch what {
				case 1:
					dir := dirs[t.Choose("dir", 2)]
					st := allStatus[t.Choose("status", 6)]
					open := t.Int("open", 0, e40)
					rem := t.Int("remaining", 0, e40)
					t.Assume(open.LTE(amt))
					if dir == types.OrderDirectionBuy {
						t.Assume(rem.LTE(ceilMul(dec("1.5"), amt)))
					} else {
						t.Assume(rem.LTE(amt))
					}
					o := r.putOrder(p, p.LastOrderId+1, orderTypes[t.Choose("type", 3)], addr(5), dir, dec("1.5"), amt, open, rem, p.CurrentBatchId-uint64(t.Choose("age", 2))*(p.CurrentBatchId-1), st, r.ctx.BlockTime().Add(time.Duration(t.Choose("life", 2))))
					o.ReceivedCoin.Amount = t.Int("received", 0, e40)
					r.k.SetOrder(r.ctx, o)
				case 2:
					x := t.Int("x", 0, e40)
					cs := sdk.NewCoins(sdk.NewCoin(quote, amt), sdk.NewCoin(base, x))
					r.fund(addr(5), cs...)
					q, _ := r.k.GetPool(r.ctx, 2)
					msg := types.NewMsgDeposit(addr(5), 2, cs)
					q.LastDepositRequestId++
					r.k.SetPool(r.ctx, q)
					req := types.NewDepositRequest(msg, q, q.LastDepositRequestId, r.ctx.BlockHeight())
					req.Status = []types.RequestStatus{types.RequestStatusNotExecuted, types.RequestStatusSucceeded, types.RequestStatusFailed}[t.Choose("status", 3)]
					if req.Status == types.RequestStatusSucceeded {
						ax, m := t.Int("accepted", 0, e40), t.Int("minted", 1, e40)
						t.Assume(ax.LTE(amt))
						req.AcceptedCoins = sdk.NewCoins(sdk.NewCoin(quote, ax))
						req.MintedPoolCoin.Amount = m
					}
					r.k.SetDepositRequest(r.ctx, req)
					r.k.SetDepositRequestIndex(r.ctx, req)
				case 3:
					q, _ := r.k.GetPool(r.ctx, 2)
					msg := types.NewMsgWithdraw(addr(5), 2, sdk.NewCoin(q.PoolCoinDenom, amt))
					q.LastWithdrawRequestId++
					r.k.SetPool(r.ctx, q)
					req := types.NewWithdrawRequest(msg, q.LastWithdrawRequestId, r.ctx.BlockHeight())
					req.Status = []types.RequestStatus{types.RequestStatusNotExecuted, types.RequestStatusSucceeded, types.RequestStatusFailed}[t.Choose("status", 3)]
					if req.Status == types.RequestStatusSucceeded {
						req.WithdrawnCoins = sdk.NewCoins(sdk.NewCoin(quote, t.Int("paid x", 0, e40)), sdk.NewCoin(base, t.Int("paid y", 0, e40)))
					}
					r.k.SetWithdrawRequest(r.ctx, req)
					r.k.SetWithdrawRequestIndex(r.ctx, req)
				case 0:
					lp := t.Dec("last price", 1, e40)
					p.LastPrice = &lp
					r.k.SetPair(r.ctx, p)
				}
			}
			_ = r.k.IterateAllOrders(r.ctx, func(o types.Order) (bool, error) { t.Reach(fmt.Sprint("order ", o.Status)); return false, nil })
			_ = r.k.IterateAllDepositRequests(r.ctx, func(q types.DepositRequest) (bool, error) {
				t.Reach(fmt.Sprint("deposit ", q.Status))
				return false, nil
			})
			_ = r.k.IterateAllWithdrawRequests(r.ctx, func(q types.WithdrawRequest) (bool, error) {
				t.Reach(fmt.Sprint("withdraw ", q.Status))
				return false, nil
			})
			_ = r.k.IterateAllPools(r.ctx, func(q types.Pool) (bool, error) { t.Reach(fmt.Sprint("pool ", q.Type, q.Disabled)); return false, nil })
			if len(r.k.ExportGenesis(r.ctx).NumMarketMakingOrdersRecords) > 0 {
				t.Reach("mm records")
			}
			t.Reach(fmt.Sprint("point ", stop))
			r.roundTrip(fmt.Sprint("point ", stop))
		},
	})
	type g = types.GenesisState
	type edit struct {
		n string
		f func(s *g, a math.Int) bool // applies the edit and tells whether the state is still valid
	}
	firstOrder := func(s *g, d types.OrderDirection) *types.Order {
		for i := range s.Orders {
			if s.Orders[i].Direction == d {
				return &s.Orders[i]
			}
		}
		panic("no order")
	}
	c0 := func(a math.Int) sdk.Coin { return sdk.Coin{Denom: quote, Amount: a} }
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	edits := []edit{
		{"nothing", func(s *g, a math.Int) bool { return true }},
		{"pair id above the last", func(s *g, a math.Int) bool { s.LastPairId--; return false }},
		{"pair id 0", func(s *g, a math.Int) bool { s.Pairs[1].Id = 0; return false }},
		{"duplicate pair", func(s *g, a math.Int) bool { s.Pairs = append(s.Pairs, s.Pairs[0]); return false }},
		{"bad base denom", func(s *g, a math.Int) bool { s.Pairs[0].BaseCoinDenom = "1"; return false }},
		{"bad quote denom", func(s *g, a math.Int) bool { s.Pairs[3].QuoteCoinDenom = ""; return false }},
		{"bad escrow address", func(s *g, a math.Int) bool { s.Pairs[3].EscrowAddress += "x"; return false }},
		{"last price", func(s *g, a math.Int) bool {
			lp := math.LegacyNewDecFromBigIntWithPrec(a.BigInt(), 18)
			s.Pairs[0].LastPrice = &lp
			return a.IsPositive()
		}},
		{"no batch", func(s *g, a math.Int) bool { s.Pairs[1].CurrentBatchId = 0; return false }},
		{"pool id above the last", func(s *g, a math.Int) bool { s.LastPoolId--; return false }},
		{"pool id 0", func(s *g, a math.Int) bool { s.Pools[3].Id = 0; return false }},
		{"duplicate pool", func(s *g, a math.Int) bool { s.Pools = append(s.Pools, s.Pools[3]); return false }},
		{"pool of no pair", func(s *g, a math.Int) bool { s.Pools[2].PairId = 9; return false }},
		{"bad reserve address", func(s *g, a math.Int) bool { s.Pools[1].ReserveAddress = ""; return false }},
		{"bad pool coin", func(s *g, a math.Int) bool { s.Pools[1].PoolCoinDenom = "?"; return false }},
		{"deposit id 0", func(s *g, a math.Int) bool { s.DepositRequests[0].Id = 0; return false }},
		{"deposit into no pool", func(s *g, a math.Int) bool { s.DepositRequests[0].PoolId = 9; return false }},
		{"deposit at height 0", func(s *g, a math.Int) bool { s.DepositRequests[0].MsgHeight = 0; return false }},
		{"bad depositor", func(s *g, a math.Int) bool { s.DepositRequests[1].Depositor += "q"; return false }},
		{"deposit amount", func(s *g, a math.Int) bool {
			s.DepositRequests[0].AcceptedCoins = nil
			s.DepositRequests[0].DepositCoins[1].Amount = a
			return a.IsPositive()
		}},
		{"accepted amount", func(s *g, a math.Int) bool {
			s.DepositRequests[0].AcceptedCoins = sdk.Coins{c0(a)}
			return a.IsPositive()
		}},
		{"accepted other coins", func(s *g, a math.Int) bool {
			s.DepositRequests[0].AcceptedCoins = sdk.Coins{{Denom: other, Amount: math.OneInt()}}
			return false
		}},
		{"deposit of other coins", func(s *g, a math.Int) bool {
			s.DepositRequests[0].AcceptedCoins = nil
			s.DepositRequests[0].DepositCoins[0].Denom = "a"
			return false
		}},
		{"deposit of one coin into a basic pool", func(s *g, a math.Int) bool {
			s.DepositRequests[0].AcceptedCoins = nil
			s.DepositRequests[0].DepositCoins = s.DepositRequests[0].DepositCoins[:1]
			return false
		}},
		{"deposit of one coin into a ranged pool", func(s *g, a math.Int) bool { return len(s.DepositRequests[1].DepositCoins) == 1 }},
		{"deposit of nothing", func(s *g, a math.Int) bool {
			s.DepositRequests[1].AcceptedCoins, s.DepositRequests[1].DepositCoins = nil, nil
			return false
		}},
		{"minted amount", func(s *g, a math.Int) bool { s.DepositRequests[0].MintedPoolCoin.Amount = a; return !a.IsNegative() }},
		{"minted other coins", func(s *g, a math.Int) bool { s.DepositRequests[0].MintedPoolCoin.Denom = "pool2"; return false }},
		{"deposit status", func(s *g, a math.Int) bool { s.DepositRequests[0].Status = 0; return false }},
		{"duplicate deposit", func(s *g, a math.Int) bool {
			s.DepositRequests = append(s.DepositRequests, s.DepositRequests[0])
			return false
		}},
		{"withdrawal id 0", func(s *g, a math.Int) bool { s.WithdrawRequests[0].Id = 0; return false }},
		{"withdrawal from no pool", func(s *g, a math.Int) bool { s.WithdrawRequests[0].PoolId = 9; return false }},
		{"withdrawal at height 0", func(s *g, a math.Int) bool { s.WithdrawRequests[0].MsgHeight = 0; return false }},
		{"bad withdrawer", func(s *g, a math.Int) bool { s.WithdrawRequests[1].Withdrawer = ""; return false }},
		{"withdrawn pool coins", func(s *g, a math.Int) bool { s.WithdrawRequests[0].PoolCoin.Amount = a; return a.IsPositive() }},
		{"withdrawn other pool coins", func(s *g, a math.Int) bool { s.WithdrawRequests[0].PoolCoin.Denom = "pool1"; return false }},
		{"paid amount", func(s *g, a math.Int) bool {
			s.WithdrawRequests[0].WithdrawnCoins = sdk.Coins{c0(a)}
			return a.IsPositive()
		}},
		{"paid three coins", func(s *g, a math.Int) bool {
			s.WithdrawRequests[0].WithdrawnCoins = sdk.Coins{{Denom: "aaa", Amount: math.OneInt()}, {Denom: "bbb", Amount: math.OneInt()}, {Denom: "ccc", Amount: math.OneInt()}}
			return false
		}},
		{"withdrawal status", func(s *g, a math.Int) bool { s.WithdrawRequests[0].Status = 7; return false }},
		{"duplicate withdrawal", func(s *g, a math.Int) bool {
			s.WithdrawRequests = append(s.WithdrawRequests, s.WithdrawRequests[len(s.WithdrawRequests)-1])
			return false
		}},
		{"order id 0", func(s *g, a math.Int) bool { s.Orders[0].Id = 0; return false }},
		{"order in no pair", func(s *g, a math.Int) bool { s.Orders[0].PairId = 9; return false }},
		{"order at height 0", func(s *g, a math.Int) bool { s.Orders[0].MsgHeight = 0; return false }},
		{"bad orderer", func(s *g, a math.Int) bool { s.Orders[1].Orderer = "x"; return false }},
		{"no direction", func(s *g, a math.Int) bool { s.Orders[1].Direction = 0; return false }},
		{"wrong direction", func(s *g, a math.Int) bool { firstOrder(s, buy).Direction = sell; return false }},
		{"offer", func(s *g, a math.Int) bool {
			firstOrder(s, buy).OfferCoin.Amount = a
			return a.IsPositive() && a.GTE(firstOrder(s, buy).RemainingOfferCoin.Amount)
		}},
		{"offer of other coins", func(s *g, a math.Int) bool {
			o := firstOrder(s, buy)
			o.OfferCoin.Denom, o.RemainingOfferCoin.Denom = other, other
			return false
		}},
		{"offer of the demanded coin", func(s *g, a math.Int) bool {
			o := firstOrder(s, sell)
			o.OfferCoin.Denom, o.RemainingOfferCoin.Denom = quote, quote
			return false
		}},
		{"remaining offer", func(s *g, a math.Int) bool {
			firstOrder(s, sell).RemainingOfferCoin.Amount = a
			return !a.IsNegative() && a.LTE(firstOrder(s, sell).OfferCoin.Amount)
		}},
		{"remaining offer of other coins", func(s *g, a math.Int) bool { firstOrder(s, sell).RemainingOfferCoin.Denom = other; return false }},
		{"received", func(s *g, a math.Int) bool { firstOrder(s, sell).ReceivedCoin.Amount = a; return !a.IsNegative() }},
		{"received other coins", func(s *g, a math.Int) bool { firstOrder(s, sell).ReceivedCoin.Denom = other; return false }},
		{"order price", func(s *g, a math.Int) bool {
			firstOrder(s, sell).Price = math.LegacyNewDecFromBigIntWithPrec(a.BigInt(), 18)
			return a.IsPositive()
		}},
		{"order amount", func(s *g, a math.Int) bool {
			firstOrder(s, sell).Amount = a
			return a.IsPositive() && a.GTE(firstOrder(s, sell).OpenAmount)
		}},
		{"open amount", func(s *g, a math.Int) bool {
			firstOrder(s, sell).OpenAmount = a
			return !a.IsNegative() && a.LTE(firstOrder(s, sell).Amount)
		}},
		{"order without batch", func(s *g, a math.Int) bool { s.Orders[2].BatchId = 0; return false }},
		{"order of a later batch", func(s *g, a math.Int) bool { s.Orders[2].BatchId = s.Pairs[0].CurrentBatchId + 1; return false }},
		{"order of the current batch", func(s *g, a math.Int) bool { s.Orders[2].BatchId = s.Pairs[0].CurrentBatchId; return true }},
		{"order without expiry", func(s *g, a math.Int) bool { s.Orders[2].ExpireAt = time.Time{}; return false }},
		{"order status", func(s *g, a math.Int) bool { s.Orders[2].Status = 0; return false }},
		{"duplicate order", func(s *g, a math.Int) bool { s.Orders = append(s.Orders, s.Orders[len(s.Orders)-1]); return false }},
		{"same order id in another pair", func(s *g, a math.Int) bool { return s.Orders[0].Id == s.Orders[len(s.Orders)-2].Id }},
		{"market-making record of nothing", func(s *g, a math.Int) bool { s.NumMarketMakingOrdersRecords[0].NumMarketMakingOrders = 0; return false }},
		{"market-making record of a bad address", func(s *g, a math.Int) bool { s.NumMarketMakingOrdersRecords[0].Orderer += "x"; return false }},
		{"market-making record in no pair", func(s *g, a math.Int) bool { s.NumMarketMakingOrdersRecords[0].PairId = 9; return false }},
		{"duplicate market-making record", func(s *g, a math.Int) bool {
			n := s.NumMarketMakingOrdersRecords[0]
			n.NumMarketMakingOrders++
			s.NumMarketMakingOrdersRecords = append(s.NumMarketMakingOrdersRecords, n)
			return false
		}},
		{"two pairs of the same coins", func(s *g, a math.Int) bool {
			s.LastPairId++
			s.Pairs = append(s.Pairs, types.NewPair(s.LastPairId, s.Pairs[2].BaseCoinDenom, s.Pairs[2].QuoteCoinDenom))
			return false
		}},
		{"pairs of the same coins either way", func(s *g, a math.Int) bool {
			s.LastPairId++
			s.Pairs = append(s.Pairs, types.NewPair(s.LastPairId, s.Pairs[2].QuoteCoinDenom, s.Pairs[2].BaseCoinDenom))
			return true
		}},
		{"batch size", func(s *g, a math.Int) bool { s.Params.BatchSize = 0; return false }},
		{"withdraw fee", func(s *g, a math.Int) bool {
			s.Params.WithdrawFeeRate = math.LegacyNewDecFromBigIntWithPrec(a.BigInt(), 18)
			return !a.IsNegative() && a.LTE(math.NewIntFromBigInt(vf.Pow10(18)))
		}},
	}
	vf.Register(&vf.Harness{
		Name: "genesisbad", Props: []string{"C16"}, Setup: newWorld,
		Bounds: fmt.Sprint("a whole exported state with one of ", len(edits), " edits, amounts symbolic -10^40..10^40"),
		Funcs:  fn,
		Must:   []string{"refused", "imported"},
		Run: func(t *vf.T) {
			r := start(t)
			r.history(4)
			s := r.k.ExportGenesis(r.ctx)
			e := edits[t.Choose("edit", len(edits))]
			a := t.Int("amount", "-"+e40, e40)
			ok := e.f(s, a)
			am := r.module().(genesisModule)
			cdc := r.w.app.AppCodec()
			bz := cdc.MustMarshalJSON(s)
			err := am.ValidateGenesis(cdc, nil, bz)
			t.Check("C16", "with "+e.n+" edited the state is refused exactly when inconsistent", (err == nil) == ok)
			c, _ := r.ctx.CacheContext()
			r.wipe(c)
			done := false
			func() {
				defer func() { _ = recover() }()
				am.InitGenesis(c, cdc, bz)
				done = true
			}()
			t.Check("C16", "with "+e.n+" edited the import is refused exactly when inconsistent", done == ok)
			t.Reach(map[bool]string{true: "imported", false: "refused"}[done])
		},
	})
}
