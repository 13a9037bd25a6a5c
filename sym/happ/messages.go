package main

import (
	"fmt"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// legacy is what every message type offers besides the protobuf interface.
type legacy interface {
	sdk.Msg
	ValidateBasic() error
	GetSigners() []sdk.AccAddress
}

// goodDenom is the denomination syntax: a letter and 2..127 letters, digits or / : . _ -
func goodDenom(d string) bool {
	if len(d) < 3 || len(d) > 128 {
		return false
	}
	for i := 0; i < len(d); i++ {
		c := d[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		mark := c >= '0' && c <= '9' || c == '/' || c == ':' || c == '.' || c == '_' || c == '-'
		if !letter && (i == 0 || !mark) {
			return false
		}
	}
	return true
}

// goodCoins says that there are lo to hi coins, all positive, of valid denominations in strict order.
func goodCoins(cs sdk.Coins, lo, hi int) bool {
	if len(cs) < lo || len(cs) > hi {
		return false
	}
	for i, c := range cs {
		if !goodDenom(c.Denom) || i > 0 && cs[i-1].Denom >= c.Denom {
			return false
		}
		if !c.Amount.IsPositive() {
			return false
		}
	}
	return true
}

func init() {
	const (
		mPair = iota
		mPool
		mRanged
		mDeposit
		mWithdraw
		mLimit
		mMarket
		mMM
		mCancel
		mCancelAll
		mParams
		nKinds
	)
	names := []string{"CreatePair", "CreatePool", "CreateRangedPool", "Deposit", "Withdraw", "LimitOrder", "MarketOrder", "MMOrder", "CancelOrder", "CancelAllOrders", "UpdateParams"}
	long := make([]byte, 128)
	for i := range long {
		long[i] = 'd'
	}
	denoms := []string{"", "b", "ba", "1base", "ba se", "base!", "-base", string(long), string(long) + "d", "Ba/s:e._-9"}
	vf.Register(&vf.Harness{
		Name: "messages", Props: []string{"C25"}, Setup: newWorld,
		Bounds: "each of the 11 message types with any amounts (-1..10^41) and prices (-1..10^35, pool prices to 10^21), and one field at a time replaced: address (none, garbage, damaged, of another chain), numbers 0, 1, 2, 2^64-1, directions -1..4, ten denomination spellings, sets of 0..3 coins (unsorted, repeated), lifespans from -2^63 to 2^63-1 ns, pair lists; executed, with the batch that follows, in a world with two pairs (with and without a last price), two pools and an open order of each kind; no absent amounts",
		Funcs:  "ValidateBasic, GetSigners, GetSignBytes and the account getters of the ten message types; amm.ValidateRangedPoolParams, OfferCoinAmount; the signer annotations of tx.proto as compiled; MsgServiceRouter; all handlers of msgServer",
		Must: func() []string {
			var l []string
			for i, n := range names {
				if i != mParams {
					l = append(l, n+" well-formed", n+" malformed")
				}
			}
			return l
		}(),
		Run: func(t *vf.T) {
			r := start(t)
			me := addr(1)
			kind := t.Choose("message", nKinds)
			ok := true
			bad := func(b bool) {
				if b {
					ok = false
				}
			}
			// one field deviates; the rest is well-formed up to the numbers
			odd := t.Choose("odd field", []int{4, 5, 5, 5, 4, 7, 7, 7, 4, 3, 1}[kind])
			who := me.String()
			if odd == 1 {
				good := me.String()
				who = []string{"", "x", good + "a", good[:len(good)-1], "cosmosvaloper1" + good[7:], addr(2).String()}[t.Choose("account", 6)]
				bad(who != addr(2).String())
				if who == addr(2).String() {
					me = addr(2)
				}
			}
			num := func(label string) uint64 {
				v := []uint64{0, 1, 2, 3, 1<<64 - 1}[t.Choose(label, 5)]
				bad(v == 0)
				return v
			}
			pairID, poolID, orderID := uint64(1), uint64(1), uint64(1)
			amount := func(label string) math.Int { return t.Int(label, "-1", vf.Pow10(41)) }
			given := "" // a concrete deposit
			coins := func(lo, hi, odd int, limit bool) sdk.Coins {
				var x, y math.Int
				if given != "" {
					y, _ = math.NewIntFromString(given)
					x = math.NewInt(1000000)
				} else {
					x, y = amount("x"), amount("y")
				}
				cs := sdk.Coins{{Denom: base, Amount: y}, {Denom: quote, Amount: x}}
				if odd > 0 {
					z := amount("z")
					switch t.Choose("coins", 6) {
					case 0:
						cs = sdk.Coins{}
					case 1:
						cs = sdk.Coins{{Denom: base, Amount: y}}
					case 2:
						cs = sdk.Coins{{Denom: quote, Amount: x}, {Denom: base, Amount: y}}
					case 3:
						cs = sdk.Coins{{Denom: base, Amount: y}, {Denom: base, Amount: x}}
					case 4:
						cs = sdk.Coins{{Denom: base, Amount: y}, {Denom: "other", Amount: z}, {Denom: quote, Amount: x}}
					case 5:
						cs = sdk.Coins{{Denom: base, Amount: y}, {Denom: denoms[t.Choose("denom", len(denoms))], Amount: x}}
					}
				}
				bad(!goodCoins(cs, lo, hi))
				if ok && limit {
					for _, c := range cs {
						bad(c.Amount.GT(maxAmt))
					}
				}
				return cs
			}
			var m sdk.Msg
			exec, end := true, true
			switch kind {
			case mPair:
				b, q := "newbase", quote
				switch odd {
				case 2:
					b = denoms[t.Choose("denom", len(denoms))]
				case 3:
					q = append(append([]string{}, denoms...), b)[t.Choose("denom", len(denoms)+1)]
				}
				bad(!goodDenom(b) || !goodDenom(q) || b == q)
				m = &types.MsgCreatePair{Creator: who, BaseCoinDenom: b, QuoteCoinDenom: q}
			case mPool:
				pairID = 2
				if odd == 2 {
					pairID = num("pair")
				}
				m = &types.MsgCreatePool{Creator: who, PairId: pairID, DepositCoins: coins(2, 2, max(0, odd-2), true)}
			case mRanged:
				if odd == 2 {
					pairID = num("pair")
				}
				lo, hi, at := dec("0.5"), dec("2"), dec("1")
				// any deposits are made for C15, here the checks take any and the execution a few
				if i := t.Choose("deposit", 4); i == 0 {
					exec = false
				} else {
					given = []string{"1000000", "1", "1" + strings.Repeat("0", 40)}[i-1]
				}
				if odd == 4 {
					exec = false
					d21 := "1000000000000000000000000000000000000000"
					hi, at = t.Dec("highest", "-1", d21), t.Dec("initial", "-1", d21)
					if i := t.Choose("lowest", 8); i > 0 {
						lo = dec([]string{"0.000000000000000999", "0.000000000000001", "0.5", "1", "0.0000000000000014", "7777777777.777777777", "99900099900099900099"}[i-1])
					} else { // any lowest price, where the gap does not matter
						lo = t.Dec("lowest", "-1", d21)
						t.Assume(hi.LTE(lo) || lo.LT(math.LegacyNewDecWithPrec(1, 15)) || hi.GT(math.LegacyNewDecFromInt(math.NewIntFromBigInt(vf.Pow10(20)))))
					}
				}
				x := 0
				if odd == 3 {
					x = 1
				}
				cs := coins(1, 2, x, true)
				if odd == 4 && ok {
					bad(!at.IsPositive() || lo.LT(math.LegacyNewDecWithPrec(1, 15)) || hi.GT(math.LegacyNewDecFromInt(math.NewIntFromBigInt(vf.Pow10(20)))) || hi.LTE(lo) || at.LT(lo) || at.GT(hi))
					if ok { // the highest price must be at least 0.1% above the lowest
						d, l := math.NewIntFromBigInt(hi.Sub(lo).BigInt()).MulRaw(1000), math.NewIntFromBigInt(lo.BigInt())
						bad(d.LT(l))
						// the code compares the ratio rounded to 18 digits
						t.Assume(d.GTE(l) || d.MulRaw(1000000000000).LT(l.MulRaw(999999999999)))
					}
				}
				m = &types.MsgCreateRangedPool{Creator: who, PairId: pairID, DepositCoins: cs, MinPrice: lo, MaxPrice: hi, InitialPrice: at}
			case mDeposit:
				if odd == 2 {
					poolID = num("pool")
				}
				m = &types.MsgDeposit{Depositor: who, PoolId: poolID, DepositCoins: coins(1, 2, max(0, odd-2), false)}
			case mWithdraw:
				if odd == 2 {
					poolID = num("pool")
				}
				d := types.PoolCoinDenom(1)
				if odd == 3 {
					d = denoms[t.Choose("denom", len(denoms))]
				}
				c := sdk.Coin{Denom: d, Amount: amount("amount")}
				bad(!goodDenom(d))
				if ok {
					bad(!c.Amount.IsPositive())
				}
				m = &types.MsgWithdraw{Withdrawer: who, PoolId: poolID, PoolCoin: c}
			case mLimit, mMarket, mMM:
				dir := types.OrderDirectionBuy
				if t.Bool("sell") {
					dir = types.OrderDirectionSell
				}
				od, dd := denomsOf(dir)
				life := time.Hour
				switch odd {
				case 2:
					pairID = num("pair")
				case 3:
					dir = []types.OrderDirection{-1, 0, 3, 4}[t.Choose("direction", 4)]
					bad(true)
				case 4:
					od = append(append([]string{}, denoms...), dd)[t.Choose("denom", len(denoms)+1)]
					bad(!goodDenom(od) || od == dd)
				case 5:
					dd = append(append([]string{}, denoms...), od)[t.Choose("denom", len(denoms)+1)]
					bad(!goodDenom(dd) || od == dd)
				case 6:
					life = []time.Duration{-1 << 63, -1, 0, 1, 24 * time.Hour, 24*time.Hour + 1, 1<<63 - 1}[t.Choose("lifespan", 7)]
					bad(life < 0)
				}
				amt, off := amount("amount"), amount("offer")
				symbolic := true
				if odd == 0 && t.Bool("concrete") {
					symbolic = false
					list := []string{"100", "1000000", "1000000000007", "1" + strings.Repeat("0", 40)}
					i := t.Choose("amounts", len(list))
					amt, _ = math.NewIntFromString(list[i])
					off = amt.MulRaw(2)
					if i == len(list)-1 {
						off = amt
					}
				}
				price := dec("1")
				if kind != mMarket && odd == 0 {
					if i := t.Choose("prices", 5); i == 0 { // any price; orders at any price are placed for C03
						exec = false
						price = t.Dec("price", "-1", vf.Pow10(53).String())
					} else {
						price = dec([]string{"1.06", "0.95012", "0.000000000000000001", "99999999999999999999"}[i-1])
					}
				}
				if ok {
					hundred := math.NewInt(100)
					bad(amt.LT(hundred) || amt.GT(maxAmt) || off.LT(hundred) || off.GT(maxAmt))
					if ok && kind != mMarket {
						bad(!price.IsPositive())
						if ok && dir == types.OrderDirectionBuy {
							bad(off.LT(ceilMul(price, amt)))
						} else if ok {
							bad(off.LT(amt))
						}
					}
				}
				end = !symbolic
				c := sdk.Coin{Denom: od, Amount: off}
				switch kind {
				case mLimit:
					m = &types.MsgLimitOrder{Orderer: who, PairId: pairID, Direction: dir, OfferCoin: c, DemandCoinDenom: dd, Price: price, Amount: amt, OrderLifespan: life}
				case mMarket:
					m = &types.MsgMarketOrder{Orderer: who, PairId: pairID, Direction: dir, OfferCoin: c, DemandCoinDenom: dd, Amount: amt, OrderLifespan: life}
				default:
					m = &types.MsgMMOrder{Orderer: who, PairId: pairID, Direction: dir, OfferCoin: c, DemandCoinDenom: dd, Price: price, Amount: amt, OrderLifespan: life}
				}
			case mCancel:
				switch odd {
				case 2:
					pairID = num("pair")
				case 3:
					orderID = num("order")
				default:
					orderID = uint64(1 + t.Choose("order", 3))
				}
				m = &types.MsgCancelOrder{Orderer: who, PairId: pairID, OrderId: orderID}
			case mCancelAll:
				ids := []uint64{1}
				if odd == 2 {
					n := t.Choose("pairs", 4)
					ids = nil
					seen := map[uint64]bool{}
					for i := 0; i < n; i++ {
						v := []uint64{0, 1, 2, 1<<64 - 1}[t.Choose(fmt.Sprint("pair", i), 4)]
						bad(v == 0 || seen[v])
						seen[v] = true
						ids = append(ids, v)
					}
				}
				m = &types.MsgCancelAllOrders{Orderer: who, PairIds: ids}
			case mParams:
				who = authtypes.NewModuleAddress("gov").String()
				if t.Bool("from a user") {
					who = me.String()
				} else {
					me = authtypes.NewModuleAddress("gov")
				}
				m = &types.MsgUpdateParams{Authority: who, Params: types.DefaultParams()}
			}

			if l, is := m.(legacy); is {
				err := l.ValidateBasic()
				t.Check("C25", names[kind]+" passes its check exactly when it is well-formed", (err == nil) == ok)
				if err != nil || !ok {
					t.Reach(names[kind] + " malformed")
					_, err := r.w.app.MsgServiceRouter().Handler(m)(r.ctx, m)
					t.Check("C25", names[kind]+" malformed is not executed", err != nil)
					return
				}
				t.Reach(names[kind] + " well-formed")
				s := l.GetSigners()
				t.Check("C25", names[kind]+" is signed by the account it acts for", len(s) == 1 && s[0].Equals(me))
			}
			s, _, err := r.w.app.AppCodec().GetMsgV1Signers(m)
			r.must(err)
			t.Check("C25", names[kind]+" is signed by the account it acts for", len(s) == 1 && sdk.AccAddress(s[0]).Equals(me))
			if !exec {
				return
			}
			// the world the message meets
			last := ""
			if kind == mLimit || kind == mMarket || kind == mMM || kind == mRanged || kind == mPool {
				last = []string{"", "1"}[t.Choose("last price", 2)]
			}
			p := r.mkPair(base, quote, last)
			r.mkPair(other, quote, "")
			n := math.NewInt(1000000000000)
			r.putPool(p, 1, false, n, n, n, "", "", false)
			r.putPool(p, 2, true, n, n, n, "0.5", "2", kind == mDeposit && t.Bool("disabled"))
			big := math.NewIntFromBigInt(vf.Pow10(42))
			for i := 1; i <= 2; i++ {
				r.fund(addr(i), sdk.NewCoin(base, big), sdk.NewCoin(quote, big), sdk.NewCoin(other, big), sdk.NewCoin(types.PoolCoinDenom(1), big))
				r.fund(addr(i), r.k.GetPairCreationFee(r.ctx)...)
				r.fund(addr(i), r.k.GetPoolCreationFee(r.ctx)...)
			}
			thousand := math.NewInt(1000)
			me = addr(1)
			r.must(r.place(tLimit, me, 1, types.OrderDirectionBuy, sdk.NewCoin(quote, thousand), base, dec("1"), thousand, time.Hour))
			r.must(r.place(tMM, me, 1, types.OrderDirectionSell, sdk.NewCoin(base, thousand), quote, dec("1.01"), thousand, time.Hour))
			r.ctx = r.ctx.WithBlockHeight(2)
			pr := r.pair(1)
			pr.CurrentBatchId++
			r.k.SetPair(r.ctx, pr)
			_, err = r.w.app.MsgServiceRouter().Handler(m)(r.ctx, m)
			if kind == mParams {
				t.Check("C25", "only the authority updates the parameters", (err == nil) == (who != addr(1).String()))
			}
			if end {
				r.endBlock()
				r.nextBlock(time.Second)
			}
			if err == nil {
				t.Reach(names[kind] + " executed")
			}
		},
	})
}
