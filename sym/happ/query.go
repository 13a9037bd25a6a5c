package main

import (
	"fmt"
	"math/big"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"

	"defund/x/dex/amm"
	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// pages reads a paginated list in one of several ways and returns the keys of the entries in store order.
func (r *run) pages(prop, what string, way int, get func(*query.PageRequest) ([]string, *query.PageResponse, error)) []string {
	t := r.t
	call := func(p *query.PageRequest) ([]string, *query.PageResponse) {
		s, res, err := get(p)
		t.Check(prop, what+": answered", err == nil)
		return s, res
	}
	switch way {
	case 0:
		s, _ := call(nil)
		return s
	case 1: // page by page
		var all []string
		var key []byte
		for n := 0; ; n++ {
			s, res := call(&query.PageRequest{Key: key, Limit: 2})
			t.Check(prop, what+": a page holds at most the asked number", len(s) <= 2)
			all = append(all, s...)
			if len(res.NextKey) == 0 || n > 50 {
				return all
			}
			t.Check(prop, what+": a page before the last is full", len(s) == 2)
			key = res.NextKey
		}
	case 2: // backwards
		s, _ := call(&query.PageRequest{Limit: 100, Reverse: true})
		for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
		return s
	default: // by offset, with the total
		var all []string
		for n := uint64(0); ; n++ {
			s, res := call(&query.PageRequest{Offset: n, Limit: 1, CountTotal: true})
			if len(s) == 0 || n > 50 {
				t.Check(prop, what+": the total", res.Total == n)
				return all
			}
			all = append(all, s...)
		}
	}
}

func (r *run) list(prop, what string, got, want []string) {
	ok := len(got) == len(want)
	for i := range got {
		ok = ok && sameText(got[i], want[i])
	}
	r.t.Check(prop, what+": exactly the matching entries, each once, in order", ok)
}

func (r *run) text(m interface{ Marshal() ([]byte, error) }) string {
	bz, err := m.Marshal()
	r.must(err)
	return string(bz)
}

func init() {
	vf.Register(&vf.Harness{
		Name: "querylists", Props: []string{"C24"}, Setup: newWorld,
		Bounds: "every list query with every filter, read in one piece, page by page, backwards and by offset, over the state at 9 points of a history with all kinds of entries, one order with a symbolic amount; unknown and malformed filters",
		Funcs:  "Keeper.Pairs, Pair, Pools, DepositRequests, DepositRequest, WithdrawRequests, WithdrawRequest, Orders, Order, OrdersByOrderer; the key and index functions of types/keys.go; FilteredPaginate",
		Run: func(t *vf.T) {
			r := start(t)
			stop := t.Choose("point", 9)
			r.history(stop)
			k, ctx := r.k, r.ctx
			if stop > 1 {
				p := r.pair(1)
				a := t.Int("amount", 100, e40)
				r.putOrder(p, p.LastOrderId+1, types.OrderTypeLimit, addr(1), types.OrderDirectionSell, dec("1.5"), a, a, a, 1, types.OrderStatusNotMatched, t0.Add(time.Hour))
			}
			way := t.Choose("way", 4)
			const c = "C24"
			var bad, e error
			switch q := t.Choose("query", 8); q {
			case 0: // pairs
				denoms := []string{base, quote, other, "bas", "basee", "a-very-long-coin-denomination/with-many-characters", "zzz"}
				filters := [][]string{nil}
				for _, d := range denoms {
					filters = append(filters, []string{d})
					for _, e := range denoms {
						filters = append(filters, []string{d, e})
					}
				}
				for _, f := range filters {
					var want []string
					for _, d := range k.GetAllPairs(ctx) {
						has := func(s string) bool { return d.BaseCoinDenom == s || d.QuoteCoinDenom == s }
						if len(f) == 0 || len(f) == 1 && has(f[0]) || len(f) == 2 && f[0] != f[1] && has(f[0]) && has(f[1]) {
							want = append(want, r.text(&d))
						}
					}
					got := r.pages(c, fmt.Sprint("pairs ", f), way, func(p *query.PageRequest) (s []string, _ *query.PageResponse, _ error) {
						res, err := k.Pairs(ctx, &types.QueryPairsRequest{Denoms: f, Pagination: p})
						if err != nil {
							return nil, nil, err
						}
						for _, x := range res.Pairs {
							s = append(s, r.text(&x))
						}
						return s, res.Pagination, nil
					})
					if len(f) == 1 { // ordered by the other denomination
						t.Check(c, "pairs by denomination: same number", len(got) == len(want))
						seen := map[string]bool{}
						for _, g := range got {
							seen[g] = true
						}
						for _, w := range want {
							t.Check(c, "pairs by denomination: found", seen[w])
						}
					} else {
						r.list(c, fmt.Sprint("pairs ", f), got, want)
					}
				}
				_, bad = k.Pairs(ctx, &types.QueryPairsRequest{Denoms: []string{base, quote, other}})
				_, e = k.Pairs(ctx, &types.QueryPairsRequest{Denoms: []string{"1"}})
				t.Check(c, "malformed requests are refused", bad != nil && e != nil)
			case 1: // pools
				for id := uint64(0); id < 7; id++ {
					for _, dis := range []string{"", "true", "false"} {
						var want []string
						for _, x := range k.GetAllPools(ctx) {
							if (id == 0 || x.PairId == id) && (dis == "" || dis == fmt.Sprint(x.Disabled)) {
								want = append(want, fmt.Sprint(x.Id))
							}
						}
						got := r.pages(c, fmt.Sprint("pools ", id, dis), way, func(p *query.PageRequest) (s []string, _ *query.PageResponse, _ error) {
							res, err := k.Pools(ctx, &types.QueryPoolsRequest{PairId: id, Disabled: dis, Pagination: p})
							if err != nil {
								return nil, nil, err
							}
							for _, x := range res.Pools {
								s = append(s, fmt.Sprint(x.Id))
							}
							return s, res.Pagination, nil
						})
						r.list(c, fmt.Sprint("pools ", id, dis), got, want)
					}
				}
				_, bad = k.Pools(ctx, &types.QueryPoolsRequest{Disabled: "maybe"})
				t.Check(c, "malformed requests are refused", bad != nil)
			case 2: // deposits
				for id := uint64(1); id < 7; id++ {
					var want []string
					for _, x := range k.GetAllDepositRequests(ctx) {
						one, err := k.DepositRequest(ctx, &types.QueryDepositRequestRequest{PoolId: x.PoolId, Id: x.Id})
						t.Check(c, "a single deposit is found", err == nil && sameText(r.text(&one.DepositRequest), r.text(&x)))
						if x.PoolId == id {
							want = append(want, r.text(&x))
						}
					}
					got := r.pages(c, fmt.Sprint("deposits ", id), way, func(p *query.PageRequest) (s []string, _ *query.PageResponse, _ error) {
						res, err := k.DepositRequests(ctx, &types.QueryDepositRequestsRequest{PoolId: id, Pagination: p})
						if err != nil {
							return nil, nil, err
						}
						for _, x := range res.DepositRequests {
							s = append(s, r.text(&x))
						}
						return s, res.Pagination, nil
					})
					r.list(c, fmt.Sprint("deposits ", id), got, want)
				}
				_, bad = k.DepositRequests(ctx, &types.QueryDepositRequestsRequest{})
				_, e = k.DepositRequest(ctx, &types.QueryDepositRequestRequest{PoolId: 1, Id: 99})
				t.Check(c, "malformed requests are refused", bad != nil && e != nil)
			case 3: // withdrawals
				for id := uint64(1); id < 7; id++ {
					var want []string
					for _, x := range k.GetAllWithdrawRequests(ctx) {
						one, err := k.WithdrawRequest(ctx, &types.QueryWithdrawRequestRequest{PoolId: x.PoolId, Id: x.Id})
						t.Check(c, "a single withdrawal is found", err == nil && sameText(r.text(&one.WithdrawRequest), r.text(&x)))
						if x.PoolId == id {
							want = append(want, r.text(&x))
						}
					}
					got := r.pages(c, fmt.Sprint("withdrawals ", id), way, func(p *query.PageRequest) (s []string, _ *query.PageResponse, _ error) {
						res, err := k.WithdrawRequests(ctx, &types.QueryWithdrawRequestsRequest{PoolId: id, Pagination: p})
						if err != nil {
							return nil, nil, err
						}
						for _, x := range res.WithdrawRequests {
							s = append(s, r.text(&x))
						}
						return s, res.Pagination, nil
					})
					r.list(c, fmt.Sprint("withdrawals ", id), got, want)
				}
				_, bad = k.WithdrawRequests(ctx, &types.QueryWithdrawRequestsRequest{})
				_, e = k.WithdrawRequest(ctx, &types.QueryWithdrawRequestRequest{PoolId: 1, Id: 99})
				t.Check(c, "malformed requests are refused", bad != nil && e != nil)
			case 4: // orders by pair
				for id := uint64(1); id < 7; id++ {
					var want []string
					for _, x := range k.GetAllOrders(ctx) {
						one, err := k.Order(ctx, &types.QueryOrderRequest{PairId: x.PairId, Id: x.Id})
						t.Check(c, "a single order is found", err == nil && sameText(r.text(&one.Order), r.text(&x)))
						if x.PairId == id {
							want = append(want, r.text(&x))
						}
					}
					got := r.pages(c, fmt.Sprint("orders ", id), way, func(p *query.PageRequest) (s []string, _ *query.PageResponse, _ error) {
						res, err := k.Orders(ctx, &types.QueryOrdersRequest{PairId: id, Pagination: p})
						if err != nil {
							return nil, nil, err
						}
						for _, x := range res.Orders {
							s = append(s, r.text(&x))
						}
						return s, res.Pagination, nil
					})
					r.list(c, fmt.Sprint("orders ", id), got, want)
				}
				_, bad = k.Orders(ctx, &types.QueryOrdersRequest{})
				_, e = k.Order(ctx, &types.QueryOrderRequest{PairId: 1, Id: 99})
				t.Check(c, "malformed requests are refused", bad != nil && e != nil)
			case 5: // orders by orderer
				for _, u := range []sdk.AccAddress{addr(1), addr(2), addr(3)} {
					for id := uint64(0); id < 6; id++ {
						var want []string
						for _, x := range k.GetAllOrders(ctx) {
							if x.Orderer == u.String() && (id == 0 || x.PairId == id) {
								want = append(want, r.text(&x))
							}
						}
						got := r.pages(c, fmt.Sprint("orders of ", u, id), way, func(p *query.PageRequest) (s []string, _ *query.PageResponse, _ error) {
							res, err := k.OrdersByOrderer(ctx, &types.QueryOrdersByOrdererRequest{Orderer: u.String(), PairId: id, Pagination: p})
							if err != nil {
								return nil, nil, err
							}
							for _, x := range res.Orders {
								s = append(s, r.text(&x))
							}
							return s, res.Pagination, nil
						})
						r.list(c, fmt.Sprint("orders of ", u, id), got, want)
					}
				}
				_, bad = k.OrdersByOrderer(ctx, &types.QueryOrdersByOrdererRequest{Orderer: "x"})
				t.Check(c, "malformed requests are refused", bad != nil)
			case 6: // single pairs and pools
				for id := uint64(0); id < 7; id++ {
					want, ok := k.GetPair(ctx, id)
					got, err := k.Pair(ctx, &types.QueryPairRequest{PairId: id})
					t.Check(c, "a single pair is found", (err == nil) == ok && (!ok || r.text(&got.Pair) == r.text(&want)))
					p, ok := k.GetPool(ctx, id)
					pr, err := k.Pool(ctx, &types.QueryPoolRequest{PoolId: id})
					t.Check(c, "a single pool is found", (err == nil) == ok && (!ok || pr.Pool.Id == id && pr.Pool.PairId == p.PairId))
					pr, err = k.PoolByPoolCoinDenom(ctx, &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: fmt.Sprint("pool", id)})
					t.Check(c, "a pool is found by its coin", (err == nil) == ok && (!ok || pr.Pool.Id == id))
					pr, err = k.PoolByReserveAddress(ctx, &types.QueryPoolByReserveAddressRequest{ReserveAddress: types.PoolReserveAddress(id).String()})
					t.Check(c, "a pool is found by its account", (err == nil) == ok && (!ok || pr.Pool.Id == id))
				}
				for _, s := range []string{"", "pool", "pool01x", "1", "pool-1", "Pool1"} {
					_, bad = k.PoolByPoolCoinDenom(ctx, &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: s})
					t.Check(c, "a malformed pool coin is refused", bad != nil)
				}
				for _, s := range []string{"", "x", addr(1).String()} {
					_, bad = k.PoolByReserveAddress(ctx, &types.QueryPoolByReserveAddressRequest{ReserveAddress: s})
					t.Check(c, "an unknown account is refused", bad != nil)
				}
			case 7: // market-making orders
				for _, u := range []sdk.AccAddress{addr(1), addr(2), addr(3)} {
					for id := uint64(1); id < 6; id++ {
						res, err := k.NumMMOrders(ctx, &types.QueryNumMMOrdersRequest{Orderer: u.String(), PairId: id})
						t.Check(c, "the number of market-making orders", err == nil && res.NumMarketMakingOrders == r.liveMM(u, id))
					}
				}
				_, bad = k.NumMMOrders(ctx, &types.QueryNumMMOrdersRequest{Orderer: "x", PairId: 1})
				t.Check(c, "malformed requests are refused", bad != nil)
				pres, err := k.Params(ctx, &types.QueryParamsRequest{})
				t.Check(c, "the parameters", err == nil && sameParams(pres.Params, k.GetParams(ctx)))
			}
		},
	})
	vf.Register(&vf.Harness{
		Name: "querypool", Props: []string{"C24"}, Setup: newWorld,
		Bounds: "one pool, active or disabled, reserves and supply symbolic 0..10^40 for a basic pool and 7 concrete states for a ranged one, read by id, account, coin, pair and in the list",
		Funcs:  "Keeper.Pool, Pools, PoolByReserveAddress, PoolByPoolCoinDenom; NewPoolResponse; BasicPool.Price, RangedPool.Price, IsDepleted",
		Must:   []string{"price", "no price"},
		Run: func(t *vf.T) {
			r := start(t)
			// the pool stands between two pools of another pair
			p2 := r.mkPair(quote, base, "")
			p := r.mkPair(base, quote, "")
			id, pid := uint64(2), p.Id
			ranged, off := t.Bool("ranged"), t.Bool("disabled")
			rx, ry, ps := r.reserves(!ranged)
			r.putPool(p2, 1, false, math.NewInt(500), math.NewInt(600), math.NewInt(700), "", "", false)
			q := r.putPool(p, id, ranged, rx, ry, ps, "0.5", "2", off)
			q.LastDepositRequestId, q.LastWithdrawRequestId = 3, 4
			r.k.SetPool(r.ctx, q)
			r.putPool(p2, 3, false, math.NewInt(500), math.NewInt(600), math.NewInt(700), "", "", false)
			var got types.PoolResponse
			one := func(res *types.QueryPoolResponse, err error) {
				t.Check("C24", "a pool can always be read", err == nil)
				got = res.Pool
			}
			many := func(res *types.QueryPoolsResponse, err error) {
				t.Check("C24", "pools can always be listed", err == nil && len(res.Pools) > 0)
				n := 0
				for _, x := range res.Pools {
					if x.Id == id {
						got = x
						n++
					} else {
						t.Check("C24", "other pools' coins", x.Balances.QuoteCoin.Denom == base && x.Balances.BaseCoin.Denom == quote && x.PairId == p2.Id)
						t.Check("C24", "other pools' amounts", x.Balances.QuoteCoin.Amount.Equal(math.NewInt(500)) && x.Balances.BaseCoin.Amount.Equal(math.NewInt(600)) && x.PoolCoinSupply.Equal(math.NewInt(700)))
					}
				}
				t.Check("C24", "the pool is listed once", n == 1)
			}
			switch t.Choose("by", 6) {
			case 0:
				one(r.k.Pool(r.ctx, &types.QueryPoolRequest{PoolId: id}))
			case 1:
				one(r.k.PoolByReserveAddress(r.ctx, &types.QueryPoolByReserveAddressRequest{ReserveAddress: q.ReserveAddress}))
			case 2:
				one(r.k.PoolByPoolCoinDenom(r.ctx, &types.QueryPoolByPoolCoinDenomRequest{PoolCoinDenom: "pool2"}))
			case 3:
				many(r.k.Pools(r.ctx, &types.QueryPoolsRequest{}))
			case 4:
				many(r.k.Pools(r.ctx, &types.QueryPoolsRequest{PairId: pid}))
			case 5:
				many(r.k.Pools(r.ctx, &types.QueryPoolsRequest{Disabled: fmt.Sprint(off)}))
			}
			t.Check("C24", "its data", got.Id == id && got.PairId == pid && got.Type == q.Type && got.Creator == q.Creator && got.ReserveAddress == q.ReserveAddress && got.PoolCoinDenom == "pool2" &&
				got.LastDepositRequestId == 3 && got.LastWithdrawRequestId == 4 && got.Disabled == off && (q.MinPrice == nil) == (got.MinPrice == nil) && (q.MaxPrice == nil) == (got.MaxPrice == nil))
			if ranged {
				t.Check("C24", "its range", got.MinPrice.Equal(dec("0.5")) && got.MaxPrice.Equal(dec("2")))
			}
			t.Check("C24", "its coins", got.Balances.QuoteCoin.Denom == quote && got.Balances.BaseCoin.Denom == base)
			t.Eq("C24", "its quote coins", got.Balances.QuoteCoin.Amount, rx)
			t.Eq("C24", "its base coins", got.Balances.BaseCoin.Amount, ry)
			t.Eq("C24", "its supply", got.PoolCoinSupply, ps)
			none := off || depleted(ranged, rx, ry, ps)
			t.Check("C24", "a price is shown exactly for pools that can trade", (got.Price == nil) == none)
			if none {
				t.Reach("no price")
				return
			}
			t.Reach("price")
			if !ranged { // |price*ry - rx| <= one unit of the last decimal
				d := new(big.Int).Sub(new(big.Int).Mul(got.Price.BigInt(), ry.BigInt()), new(big.Int).Mul(rx.BigInt(), vf.Pow10(18)))
				t.Check("C24", "the price is the reserves' ratio", d.Cmp(ry.BigInt()) <= 0 && d.Cmp(new(big.Int).Neg(ry.BigInt())) >= 0)
			} else {
				t.Check("C24", "the price lies in the range", got.Price.GTE(dec("0.499999999999")) && got.Price.LTE(dec("2.000000000001")))
			}
		},
	})
	buy, sell := types.OrderDirectionBuy, types.OrderDirectionSell
	type lvl struct {
		p math.LegacyDec
		a math.Int
	}
	pos := func(a math.Int) math.Int {
		if a.IsNegative() {
			return math.ZeroInt()
		}
		return a
	}
	books := [][]uo{
		{{buy, "1"}, {sell, "1.01"}, {buy, "0.955"}, {sell, "1.04"}},
		{{buy, "1.03"}, {sell, "0.99"}, {buy, "1"}, {sell, "1.01"}},
		{{buy, "1.03"}, {sell, "1.03"}, {buy, "1.03"}, {sell, "0.98"}},
		{{buy, "0.5"}, {buy, "0.99"}, {buy, "0.991"}, {buy, "0.999"}},
		{{sell, "1.002"}, {sell, "1.099"}, {sell, "1.3"}, {sell, "1.1"}},
		{{buy, "0.9995"}, {sell, "1.003"}, {buy, "0.9"}, {sell, "1.1"}},
	}
	vf.Register(&vf.Harness{
		Name: "orderbook", Props: []string{"C28"}, Setup: newWorld,
		Bounds: "six books of up to four orders with symbolic open amounts 100..10^30 (quick: two symbolic, two concrete) or finished ones, with no pool, with a basic and a ranged one after a disabled one or with a ranged one before a disabled one, tick precision 3, limit ratio 10 %, price units 1, 10, 100 times the grid's, 1, 2 or 20 ticks (quick: 6 of the 45 combinations per book)",
		Funcs:  "Keeper.OrderBooks, PriceLimits; OrderBook.MakeView, OrderBookView.Match, BuyAmountOver, BuyAmountUnder, SellAmountUnder, SellAmountOver, HighestBuyPrice, LowestSellPrice; MakeOrderBookPairResponse, OrderBookBasePrice, FitPriceToTickGap; NewUserOrder, PoolOrders",
		Must:   []string{"crossing", "apart", "empty"},
		Run: func(t *vf.T) {
			r := start(t)
			pr := r.k.GetParams(r.ctx)
			pr.TickPrecision = 3
			r.k.SetParams(r.ctx, pr)
			r.mkPair(other, quote, "3")
			p := r.mkPair(base, quote, "1")
			b := books[t.Choose("book", len(books))]
			var n uint32
			var done, pk int
			if t.Thorough() {
				n, done, pk = []uint32{1, 2, 20}[t.Choose("ticks", 3)], t.Choose("finished", 5), t.Choose("pool", 3)
			} else {
				v := [][3]int{{1, 4, 0}, {20, 4, 1}, {2, 0, 2}, {20, 1, 0}, {20, 2, 1}, {2, 3, 2}}[t.Choose("variant", 6)]
				n, done, pk = uint32(v[0]), v[1], v[2]
			}
			var buys, sells []lvl
			for i, o := range b {
				a := math.NewInt([]int64{0, 0, 54321, 777}[i])
				if i < 2 || t.Thorough() {
					a = t.Int(fmt.Sprint("open", i), 100, vf.Pow10(30))
				}
				st := []types.OrderStatus{types.OrderStatusNotExecuted, types.OrderStatusNotMatched, types.OrderStatusPartiallyMatched}[i%3]
				if i == done {
					st = allStatus[3+i%3]
				}
				rem := a
				if o.dir == buy {
					rem = ceilMul(dec(o.price), a)
				}
				r.putOrder(p, uint64(i+1), types.OrderTypeLimit, addr(i+1), o.dir, dec(o.price), a, a, rem, 1, st, t0.Add(time.Hour))
				if i == done {
					continue
				}
				if o.dir == buy {
					buys = append(buys, lvl{dec(o.price), a})
				} else {
					sells = append(sells, lvl{dec(o.price), a})
				}
			}
			lo, hi := dec("0.9"), dec("1.1")
			if pk > 0 {
				off := func() { r.k.MarkPoolAsDisabled(r.ctx, r.mkPool(p.Id, 2, 5000000, 5000000, "0.9", "1.1", "1")) }
				var qs []types.Pool
				if pk == 1 { // a disabled pool before the active ones, of which there are two
					off()
					qs = append(qs, r.mkPool(p.Id, 1, 5000000, 5000000, "", "", ""), r.mkPool(p.Id, 2, 3000000, 2000000, "0.95", "1.2", "1.01"))
				} else {
					qs = append(qs, r.mkPool(p.Id, 2, 5000000, 5000000, "0.9", "1.1", "1"))
					off()
				}
				for _, q := range qs {
					rx, ry := r.k.GetPoolBalances(r.ctx, q)
					for _, o := range amm.PoolOrders(q.AMMPool(rx.Amount, ry.Amount, r.k.GetPoolCoinSupply(r.ctx, q)), amm.DefaultOrderer, lo, hi, 3) {
						if o.GetDirection() == amm.Buy {
							buys = append(buys, lvl{o.GetPrice(), o.GetAmount()})
						} else {
							sells = append(sells, lvl{o.GetPrice(), o.GetAmount()})
						}
					}
				}
			}
			D := func(p math.LegacyDec) math.Int { // bought at p or above
				s := math.ZeroInt()
				for _, l := range buys {
					if l.p.GTE(p) {
						s = s.Add(l.a)
					}
				}
				return s
			}
			S := func(p math.LegacyDec) math.Int {
				s := math.ZeroInt()
				for _, l := range sells {
					if l.p.LTE(p) {
						s = s.Add(l.a)
					}
				}
				return s
			}
			match := math.ZeroInt()
			for _, ls := range [][]lvl{buys, sells} {
				for _, l := range ls {
					match = math.MaxInt(match, math.MinInt(D(l.p), S(l.p)))
				}
			}
			restD := func(p math.LegacyDec) math.Int { return pos(D(p).Sub(match)) }
			restS := func(p math.LegacyDec) math.Int { return pos(S(p).Sub(match)) }
			var hb, ls *math.LegacyDec
			for i := range buys {
				if (hb == nil || buys[i].p.GT(*hb)) && restD(buys[i].p).IsPositive() {
					hb = &buys[i].p
				}
			}
			for i := range sells {
				if (ls == nil || sells[i].p.LT(*ls)) && restS(sells[i].p).IsPositive() {
					ls = &sells[i].p
				}
			}
			res, err := r.k.OrderBooks(r.ctx, &types.QueryOrderBooksRequest{PairIds: []uint64{2}, PriceUnitPowers: []uint32{2, 0, 1}, NumTicks: n})
			const c = "C28"
			t.Check(c, "answered", err == nil && len(res.Pairs) == 1 && res.Pairs[0].PairId == 2)
			bk := res.Pairs[0]
			if hb == nil && ls == nil {
				t.Reach("empty")
				t.Check(c, "an empty book has no entries", len(bk.OrderBooks) == 0)
				return
			}
			t.Reach(map[bool]string{true: "crossing", false: "apart"}[match.IsPositive()])
			switch {
			case hb == nil:
				t.Check(c, "base price is the lowest sell price", bk.BasePrice.Equal(*ls))
			case ls == nil:
				t.Check(c, "base price is the highest buy price", bk.BasePrice.Equal(*hb))
			default:
				mid := hb.Add(*ls).QuoInt64(2)
				g := gridUp(mid, 3).Sub(gridDown(mid, 3))
				t.Check(c, "base price is the middle", (bk.BasePrice.Equal(mid) || bk.BasePrice.Sub(mid).Abs().LT(g)) && gridDown(bk.BasePrice, 3).Equal(bk.BasePrice))
			}
			t.Check(c, "one book per unit", len(bk.OrderBooks) == 3)
			unit := bk.OrderBooks[0].PriceUnit
			t.Check(c, "the smallest unit is the grid's", unit.Equal(dec("0.001")) || unit.Equal(dec("0.0001")))
			for i, ob := range bk.OrderBooks {
				u := ob.PriceUnit
				t.Check(c, "units are powers of ten", u.Equal(unit.MulInt64([]int64{1, 10, 100}[i])))
				onUnit := func(p math.LegacyDec) bool { return p.Quo(u).IsInteger() }
				t.Check(c, "at most the asked number of ticks", len(ob.Sells) <= int(n) && len(ob.Buys) <= int(n))
				sum, prev := math.ZeroInt(), dec("0")
				for j := len(ob.Sells) - 1; j >= 0; j-- {
					x := ob.Sells[j]
					amt := x.UserOrderAmount.Add(x.PoolOrderAmount)
					t.Check(c, "sells go up in price", onUnit(x.Price) && x.Price.GT(prev) && x.Price.LTE(hi) && amt.IsPositive())
					t.Eq(c, "nothing to sell is left out below a tick", restS(x.Price.Sub(u)), sum)
					sum, prev = sum.Add(amt), x.Price
					t.Eq(c, "sells up to a tick", sum, restS(x.Price))
				}
				if len(ob.Sells) < int(n) {
					t.Eq(c, "all sells in the limits are shown", sum, restS(hi.Quo(u).TruncateDec().Mul(u)))
				}
				sum, prev = math.ZeroInt(), dec("100")
				for _, x := range ob.Buys {
					amt := x.UserOrderAmount.Add(x.PoolOrderAmount)
					t.Check(c, "buys go down in price", onUnit(x.Price) && x.Price.LT(prev) && x.Price.GTE(lo) && amt.IsPositive())
					t.Eq(c, "nothing to buy is left out above a tick", restD(x.Price.Add(u)), sum)
					sum, prev = sum.Add(amt), x.Price
					t.Eq(c, "buys down to a tick", sum, restD(x.Price))
				}
				if len(ob.Buys) < int(n) {
					t.Eq(c, "all buys in the limits are shown", sum, restD(lo.Quo(u).Ceil().Mul(u)))
				}
			}
		},
	})
}
