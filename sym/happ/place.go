package main

import (
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/amm"
	"defund/x/dex/types"
	"defund/x/verif/vf"
)

const (
	tLimit = iota
	tMM
	tMarket
)

// place sends an order message the way a transaction does: stateless check, then the message server.
func (r *run) place(typ int, who sdk.AccAddress, pair uint64, dir types.OrderDirection, offer sdk.Coin, demand string, price math.LegacyDec, amt math.Int, life time.Duration) error {
	switch typ {
	case tLimit:
		m := types.NewMsgLimitOrder(who, pair, dir, offer, demand, price, amt, life)
		if err := m.ValidateBasic(); err != nil {
			return err
		}
		_, err := r.ms.LimitOrder(r.ctx, m)
		return err
	case tMM:
		m := types.NewMsgMMOrder(who, pair, dir, offer, demand, price, amt, life)
		if err := m.ValidateBasic(); err != nil {
			return err
		}
		_, err := r.ms.MMOrder(r.ctx, m)
		return err
	default:
		m := types.NewMsgMarketOrder(who, pair, dir, offer, demand, amt, life)
		if err := m.ValidateBasic(); err != nil {
			return err
		}
		_, err := r.ms.MarketOrder(r.ctx, m)
		return err
	}
}

var maxAmt = math.NewIntFromBigInt(vf.Pow10(40))

// placeCase places one order and compares acceptance, escrow and the stored order with the specification.
func placeCase(t *vf.T, prop string, typ int, dir types.OrderDirection, last string, price math.LegacyDec, amt, offerAmt, spend math.Int, life time.Duration, denomCase int, pairID uint64) {
	var l *math.LegacyDec
	if last != "" {
		d := dec(last)
		l = &d
	}
	placeAt(start(t), prop, typ, dir, l, false, price, amt, offerAmt, spend, life, denomCase, pairID)
}

// placeAt is placeCase in a given world; symLast says that the last price is symbolic.
func placeAt(r *run, prop string, typ int, dir types.OrderDirection, last *math.LegacyDec, symLast bool, price math.LegacyDec, amt, offerAmt, spend math.Int, life time.Duration, denomCase int, pairID uint64) {
	t := r.t
	gridDown, gridUp := gridDown, gridUp
	if symLast {
		gridDown, gridUp = amm.PriceToDownTick, amm.PriceToUpTick
	}
	p := r.mkPair(base, quote, "")
	if last != nil {
		p.LastPrice = last
		r.k.SetPair(r.ctx, p)
	}
	u := addr(1)
	offerD, demandD := denomsOf(dir)
	switch denomCase {
	case 1:
		offerD, demandD = demandD, offerD
	case 2:
		offerD = other
	case 3:
		demandD = other
	case 4:
		demandD = offerD
	}
	r.fund(u, sdk.NewCoin(offerD, spend))
	prec := int(r.k.GetTickPrecision(r.ctx))
	ratio := r.k.GetMaxPriceLimitRatio(r.ctx)
	maxLife := r.k.GetMaxOrderLifespan(r.ctx)

	// specification
	valid := denomCase == 0 && pairID == p.Id && life <= maxLife && life >= 0
	var at math.LegacyDec
	if valid && typ == tMarket {
		valid = last != nil
		if valid {
			l := *last
			if dir == types.OrderDirectionBuy {
				at = gridDown(l.Mul(math.LegacyOneDec().Add(ratio)), prec)
			} else {
				at = gridUp(l.Mul(math.LegacyOneDec().Sub(ratio)), prec)
			}
		}
	} else if valid {
		lo, hi := amm.LowestTick(prec), amm.HighestTick(prec)
		if last != nil {
			l := *last
			lo = gridUp(l.Mul(math.LegacyOneDec().Sub(ratio)), prec)
			hi = gridDown(l.Mul(math.LegacyOneDec().Add(ratio)), prec)
		}
		valid = price.GTE(lo) && price.LTE(hi)
		if valid {
			if dir == types.OrderDirectionBuy {
				at = amm.PriceToDownTick(price, prec)
			} else {
				at = amm.PriceToUpTick(price, prec)
			}
		}
	}
	hundred := math.NewInt(100)
	valid = valid && amt.GTE(hundred) && amt.LTE(maxAmt) && offerAmt.GTE(hundred) && offerAmt.LTE(maxAmt) && spend.GTE(offerAmt)
	var need math.Int
	if valid {
		need = amt
		if dir == types.OrderDirectionBuy {
			need = ceilMul(at, amt)
			// a limit order must also cover the price it asks for
			valid = offerAmt.GTE(need) && (typ == tMarket || offerAmt.GTE(ceilMul(price, amt)))
		} else {
			valid = offerAmt.GTE(need)
		}
		if valid {
			valid = at.MulInt(amt).GTE(hundred.ToLegacyDec())
		}
	}

	accs := []sdk.AccAddress{u, esc(p)}
	before := r.snap(accs, base, quote, other)
	err := r.place(typ, u, pairID, dir, sdk.NewCoin(offerD, offerAmt), demandD, price, amt, life)
	t.Check(prop, "accepted exactly when the conditions hold", (err == nil) == valid)
	if err != nil || !valid {
		t.Reach("rejected")
		return
	}
	t.Reach("accepted")
	t.Observe("escrow", need)
	t.Eq(prop, "the orderer pays exactly what the order can need", r.delta(before, u, offerD), need.Neg())
	t.Eq(prop, "the pair's escrow holds it", r.delta(before, esc(p), offerD), need)
	t.Eq(prop, "nothing else moves", r.delta(before, u, demandD), math.ZeroInt())
	p2 := r.pair(p.Id)
	t.Check(prop, "the pair counts the order", p2.LastOrderId == p.LastOrderId+1)
	o, ok := r.k.GetOrder(r.ctx, p.Id, p2.LastOrderId)
	t.Check(prop, "order stored", ok)
	want := map[int]types.OrderType{tLimit: types.OrderTypeLimit, tMM: types.OrderTypeMM, tMarket: types.OrderTypeMarket}[typ]
	t.Check(prop, "order fields", o.Type == want && o.Direction == dir && o.Orderer == u.String() && o.PairId == p.Id && o.Id == p2.LastOrderId &&
		o.BatchId == p.CurrentBatchId && o.MsgHeight == r.ctx.BlockHeight() && o.Status == types.OrderStatusNotExecuted &&
		o.ExpireAt.Equal(r.ctx.BlockTime().Add(life)) && o.OfferCoin.Denom == offerD && o.RemainingOfferCoin.Denom == offerD && o.ReceivedCoin.Denom == demandD)
	t.Check(prop, "order price", o.Price.Equal(at))
	t.Eq(prop, "order amount", o.Amount, amt)
	t.Eq(prop, "open amount", o.OpenAmount, amt)
	t.Eq(prop, "offer", o.OfferCoin.Amount, need)
	t.Eq(prop, "remaining offer", o.RemainingOfferCoin.Amount, need)
	t.Check(prop, "nothing received yet", o.ReceivedCoin.Amount.IsZero())
	t.Check(prop, "found through its owner", len(r.k.GetOrdersByOrderer(r.ctx, u)) == 1)
	n := uint32(0)
	if typ == tMM {
		n = 1
	}
	t.Check(prop, "market making orders counted", r.k.GetNumMMOrders(r.ctx, u, p.Id) == n)
}

var dirs = []types.OrderDirection{types.OrderDirectionBuy, types.OrderDirectionSell}

var placePrices = []string{"1.2345", "1.23456789", "0.00098765432", "98765.4321", "0.000000000123456789", "9.99995", "12345678901234567.89", "0.00000000000001"}

func init() {
	funcs := "ValidateBasic of MsgLimitOrder/MsgMMOrder/MsgMarketOrder; msgServer.LimitOrder/MMOrder/MarketOrder; Keeper.placeOrder, MMOrder, SetOrder, SetOrderIndex, GetOrder, GetOrdersByOrderer, PriceLimits; types.NewOrder, IsTooSmallOrderAmount; amm.OfferCoinAmount, PriceToDownTick, PriceToUpTick; bank SendCoins"
	// amounts, offers and balances are symbolic; prices from a list, with and without a last price
	vf.Register(&vf.Harness{
		Name: "place", Props: []string{"C09"}, Setup: newWorld,
		Bounds: "one order of each type and direction, 8 order prices (on and off the grid) without a last price, amount/offer/balance symbolic 0..10^41, tick precision 4",
		Funcs:  funcs, Must: []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			typ := t.Choose("type", 2)
			dir := dirs[t.Choose("dir", 2)]
			price := dec(placePrices[t.Choose("price", len(placePrices))])
			amt := t.Int("amount", 0, vf.Pow10(41))
			offer := t.Int("offer", 0, vf.Pow10(41))
			spend := t.Int("spendable", 0, vf.Pow10(41))
			placeCase(t, "C09", typ, dir, "", price, amt, offer, spend, time.Hour, 0, 1)
		},
	})
	vf.Register(&vf.Harness{
		Name: "placesymprice", Props: []string{"C09"}, Setup: newWorld,
		Bounds: "one limit order of each direction, no last price, price symbolic over 10^-14..10^20, 3 amounts, offer and balance symbolic 0..10^41, tick precision 4",
		Funcs:  funcs, Must: []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			dir := dirs[t.Choose("dir", 2)]
			price := t.Dec("price", 1, vf.Pow10(39))
			amt := []math.Int{math.NewInt(100), math.NewInt(1234567), math.NewIntFromBigInt(vf.Pow10(18))}[t.Choose("amount", 3)]
			offer := t.Int("offer", 0, vf.Pow10(41))
			placeCase(t, "C09", tLimit, dir, "", price, amt, offer, offer, time.Hour, 0, 1)
		},
	})
	vf.Register(&vf.Harness{
		Name: "placebad", Props: []string{"C09"}, Setup: newWorld,
		Bounds: "one order of each type and direction with wrong denominations, unknown pair, lifespans around the limits; amount, offer and balance symbolic 0..10^41",
		Funcs:  funcs, Must: []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			typ := t.Choose("type", 3)
			dir := dirs[t.Choose("dir", 2)]
			amt := t.Int("amount", 0, vf.Pow10(41))
			offer := t.Int("offer", 0, vf.Pow10(41))
			life := time.Hour
			dc, pid := 0, uint64(1)
			switch c := t.Choose("case", 10); {
			case c < 4:
				dc = c + 1
			case c < 6:
				pid = uint64((c - 4) * 2)
			default:
				life = []time.Duration{0, -1, 24 * time.Hour, 24*time.Hour + 1}[c-6]
			}
			placeCase(t, "C09", typ, dir, "1", dec("1.0123456"), amt, offer, offer, life, dc, pid)
		},
	})
}

var ratios = []string{"0.1", "0.003", "0.9999", "0.5", "0"}
var lasts = []string{"1", "1.0001", "99999", "0.0012346", "0.00000000012345", "123460000000000"}

func lastRange(t *vf.T) (lo, hi any) {
	if t.Thorough() {
		return vf.Pow10(4), vf.Pow10(38)
	}
	return vf.Pow10(15), vf.Pow10(21)
}

func init() {
	funcs := "msgServer.LimitOrder/MMOrder/MarketOrder; Keeper.placeOrder, PriceLimits; types.PriceLimits; amm.PriceToDownTick, PriceToUpTick, OfferCoinAmount"
	do := func(r *run, prop string, typ int, dir types.OrderDirection, last *math.LegacyDec, symLast bool, price math.LegacyDec, amt, offer math.Int) {
		placeAt(r, prop, typ, dir, last, symLast, price, amt, offer, offer, time.Hour, 0, 1)
	}
	world := func(t *vf.T, few bool) *run {
		n := len(ratios)
		if few && !t.Thorough() {
			n = 2
		}
		r := start(t)
		ps := r.k.GetParams(r.ctx)
		ps.MaxPriceLimitRatio = dec(ratios[t.Choose("ratio", n)])
		ps.TickPrecision = []uint32{4, 2}[t.Choose("prec", 2)]
		r.k.SetParams(r.ctx, ps)
		return r
	}
	vf.Register(&vf.Harness{
		Name: "limitprice", Props: []string{"C19"}, Setup: newWorld,
		Bounds: "limit and market making orders in both directions, price symbolic over 10^-18..10^21, 6 last prices, 5 limit ratios, tick precisions 4 and 2, one amount, a sufficient offer",
		Funcs:  funcs, Must: []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			r := world(t, false)
			typ, dir := t.Choose("type", 2), dirs[t.Choose("dir", 2)]
			last := dec(lasts[t.Choose("last", len(lasts))])
			price := t.Dec("price", 1, vf.Pow10(39))
			do(r, "C19", typ, dir, &last, false, price, math.NewIntFromBigInt(vf.Pow10(15)), maxAmt)
		},
	})
	vf.Register(&vf.Harness{
		Name: "limitlast", Props: []string{"C19"}, Setup: newWorld,
		Bounds: "limit orders in both directions, last price symbolic on the grid over 10^-3..10^3 (thorough: 10^-14..10^20), order price symbolic within 25 % of it, 5 limit ratios (quick: 2), tick precisions 4 and 2, one amount",
		Funcs:  funcs, Must: []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			r := world(t, true)
			dir := dirs[t.Choose("dir", 2)]
			lo, hi := lastRange(t)
			last := t.Dec("last", lo, hi)
			prec := int(r.k.GetTickPrecision(r.ctx))
			t.Assume(amm.PriceToDownTick(last, prec).Equal(last))
			price := t.Dec("price", vf.Pow10(4), vf.Pow10(38))
			t.Assume(price.MulInt64(4).GTE(last.MulInt64(3)))
			t.Assume(price.MulInt64(4).LTE(last.MulInt64(5)))
			do(r, "C19", tLimit, dir, &last, true, price, math.NewIntFromBigInt(vf.Pow10(18)), maxAmt)
		},
	})
	vf.Register(&vf.Harness{
		Name: "marketlast", Props: []string{"C27"}, Setup: newWorld,
		Bounds: "market orders in both directions, last price symbolic on the grid over 10^-3..10^3 (thorough: 10^-14..10^20), 5 limit ratios (quick: 2), tick precisions 4 and 2, 3 amounts, offer symbolic",
		Funcs:  funcs, Must: []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			r := world(t, true)
			dir := dirs[t.Choose("dir", 2)]
			lo, hi := lastRange(t)
			last := t.Dec("last", lo, hi)
			prec := int(r.k.GetTickPrecision(r.ctx))
			t.Assume(amm.PriceToDownTick(last, prec).Equal(last))
			amt := []math.Int{math.NewInt(100), math.NewInt(1234567), math.NewIntFromBigInt(vf.Pow10(18))}[t.Choose("amount", 3)]
			do(r, "C27", tMarket, dir, &last, true, dec("1"), amt, t.Int("offer", 0, vf.Pow10(41)))
		},
	})
	vf.Register(&vf.Harness{
		Name: "market", Props: []string{"C27"}, Setup: newWorld,
		Bounds: "market orders in both directions, no last price or one of 6, 5 limit ratios, tick precisions 4 and 2, amount, offer and balance symbolic 0..10^41",
		Funcs:  funcs, Must: []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			r := world(t, false)
			dir := dirs[t.Choose("dir", 2)]
			var last *math.LegacyDec
			if c := t.Choose("last", len(lasts)+1); c > 0 {
				d := dec(lasts[c-1])
				last = &d
			}
			placeAt(r, "C27", tMarket, dir, last, false, dec("1"), t.Int("amount", 0, vf.Pow10(41)), t.Int("offer", 0, vf.Pow10(41)), t.Int("spendable", 0, vf.Pow10(41)), time.Hour, 0, 1)
		},
	})
}
