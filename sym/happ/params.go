package main

import (
	"math"
	"strings"
	"time"

	sdkmath "cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

func sameCoins(a, b sdk.Coins) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Denom != b[i].Denom || !a[i].Amount.Equal(b[i].Amount) {
			return false
		}
	}
	return true
}

func sameParams(a, b types.Params) bool {
	return a.BatchSize == b.BatchSize && a.TickPrecision == b.TickPrecision && a.FeeCollectorAddress == b.FeeCollectorAddress && a.DustCollectorAddress == b.DustCollectorAddress &&
		a.MaxNumMarketMakingOrderTicks == b.MaxNumMarketMakingOrderTicks && a.MaxNumMarketMakingOrdersPerPair == b.MaxNumMarketMakingOrdersPerPair && a.MaxOrderLifespan == b.MaxOrderLifespan &&
		a.DepositExtraGas == b.DepositExtraGas && a.WithdrawExtraGas == b.WithdrawExtraGas && a.OrderExtraGas == b.OrderExtraGas && a.MaxNumActivePoolsPerPair == b.MaxNumActivePoolsPerPair &&
		a.MinInitialPoolCoinSupply.Equal(b.MinInitialPoolCoinSupply) && a.MinInitialDepositAmount.Equal(b.MinInitialDepositAmount) &&
		a.MaxPriceLimitRatio.Equal(b.MaxPriceLimitRatio) && a.SwapFeeRate.Equal(b.SwapFeeRate) && a.WithdrawFeeRate.Equal(b.WithdrawFeeRate) &&
		sameCoins(a.PairCreationFee, b.PairCreationFee) && sameCoins(a.PoolCreationFee, b.PoolCreationFee)
}

func init() {
	vf.Register(&vf.Harness{
		Name: "params", Props: []string{"C20"}, Setup: newWorld,
		Bounds: "one update by the authority, a user, the module account or nobody, all amounts and rates symbolic at once (-10^40..10^40, rates -3..3 with 18 decimals), every other field at the ends of its domain and outside",
		Funcs:  "msgServer.UpdateParams; Keeper.GetAuthority, SetParams, GetParams and the single getters; Params.Validate and its field validators; params query; the parameter store of the SDK",
		Must:   []string{"accepted", "rejected"},
		Run: func(t *vf.T) {
			r := start(t)
			gov := authtypes.NewModuleAddress("gov").String()
			t.Check("C20", "the governance account is the authority", r.k.GetAuthority() == gov)
			old := r.k.GetParams(r.ctx)
			p := types.DefaultParams()
			ok := true
			lo, hi := "-"+e40, e40
			p.MinInitialPoolCoinSupply = t.Int("min pool coin supply", lo, hi)
			p.MinInitialDepositAmount = t.Int("min deposit", lo, hi)
			p.MaxPriceLimitRatio = t.Dec("price limit ratio", "-3000000000000000000", "3000000000000000000")
			p.SwapFeeRate = t.Dec("swap fee", "-3000000000000000000", "3000000000000000000")
			p.WithdrawFeeRate = t.Dec("withdraw fee", "-3000000000000000000", "3000000000000000000")
			f1, f2, f3 := t.Int("pair fee", lo, hi), t.Int("pool fee 1", lo, hi), t.Int("pool fee 2", lo, hi)
			p.PairCreationFee = sdk.Coins{{Denom: "feea", Amount: f1}}
			p.PoolCreationFee = sdk.Coins{{Denom: "feea", Amount: f2}, {Denom: "feeb", Amount: f3}}
			pf, lf, mps := true, true, p.MinInitialPoolCoinSupply
			bad := func(b bool) {
				if b {
					ok = false
				}
			}
			who := gov
			me := addr(5).String()
			switch t.Choose("field", 19) {
			case 1:
				who = []string{me, authtypes.NewModuleAddress(types.ModuleName).String(), "", strings.ToUpper(gov), gov + "x"}[t.Choose("authority", 5)]
				bad(true)
			case 2:
				p.BatchSize = []uint32{0, 2, math.MaxUint32}[t.Choose("batch size", 3)]
				bad(p.BatchSize == 0)
			case 3:
				p.TickPrecision = []uint32{0, 1, 17, 18, 19, math.MaxUint32}[t.Choose("precision", 6)]
				bad(p.TickPrecision > 18)
			case 4:
				p.FeeCollectorAddress = []string{me, "", "cosmos1", me + "x"}[t.Choose("fee collector", 4)]
				bad(p.FeeCollectorAddress != me)
			case 5:
				p.DustCollectorAddress = []string{me, "", "cosmos1", me + "x"}[t.Choose("dust collector", 4)]
				bad(p.DustCollectorAddress != me)
			case 6:
				p.MaxNumMarketMakingOrderTicks = []uint32{0, 1, math.MaxUint32}[t.Choose("mm ticks", 3)]
				bad(p.MaxNumMarketMakingOrderTicks == 0)
			case 7:
				p.MaxNumMarketMakingOrdersPerPair = []uint32{0, 1, math.MaxUint32}[t.Choose("mm orders", 3)]
				bad(p.MaxNumMarketMakingOrdersPerPair == 0)
			case 8:
				p.MaxOrderLifespan = []time.Duration{-1, 0, 1, math.MaxInt64, math.MinInt64}[t.Choose("lifespan", 5)]
				bad(p.MaxOrderLifespan < 0)
			case 9:
				p.MaxNumActivePoolsPerPair = []uint32{0, math.MaxUint32}[t.Choose("pools", 2)]
			case 10:
				p.DepositExtraGas, p.WithdrawExtraGas, p.OrderExtraGas = 0, math.MaxUint64, 1
			case 11:
				p.PairCreationFee, pf = nil, false
			case 12:
				p.PoolCreationFee, lf = sdk.Coins{}, false
			case 13:
				p.PairCreationFee = sdk.Coins{{Denom: "feeb", Amount: f1}, {Denom: "feea", Amount: f2}}
				bad(true)
			case 14:
				p.PoolCreationFee = sdk.Coins{{Denom: "feea", Amount: f2}, {Denom: "feea", Amount: f3}}
				bad(true)
			case 15:
				p.PoolCreationFee = sdk.Coins{{Denom: "1", Amount: f2}}
				bad(true)
			case 16:
				p.MinInitialPoolCoinSupply = sdkmath.Int{}
				bad(true)
			case 17:
				p.PairCreationFee = sdk.Coins{{Denom: "feea", Amount: f1}, {Denom: "", Amount: f2}}
				bad(true)
			case 18: // the collectors may be one account
				p.FeeCollectorAddress, p.DustCollectorAddress = me, me
			}
			if !mps.IsPositive() || p.MinInitialDepositAmount.IsNegative() || p.MaxPriceLimitRatio.IsNegative() || p.MaxPriceLimitRatio.GTE(dec("1")) ||
				p.SwapFeeRate.IsNegative() || p.WithdrawFeeRate.IsNegative() || p.WithdrawFeeRate.GT(dec("1")) || pf && !f1.IsPositive() || lf && (!f2.IsPositive() || !f3.IsPositive()) {
				ok = false
			}
			c, write := r.ctx.CacheContext()
			_, err := r.ms.UpdateParams(c, &types.MsgUpdateParams{Authority: who, Params: p})
			t.Check("C20", "accepted exactly when the authority asks for valid values", (err == nil) == ok)
			if err != nil {
				t.Reach("rejected")
				t.Check("C20", "a rejected update changes nothing", sameParams(r.k.GetParams(c), old))
				return
			}
			write()
			t.Reach("accepted")
			got := r.k.GetParams(r.ctx)
			t.Check("C20", "the values are stored exactly", sameParams(got, p))
			one := types.Params{BatchSize: r.k.GetBatchSize(r.ctx), TickPrecision: r.k.GetTickPrecision(r.ctx), FeeCollectorAddress: r.k.GetFeeCollector(r.ctx).String(), DustCollectorAddress: r.k.GetDustCollector(r.ctx).String(),
				MinInitialPoolCoinSupply: r.k.GetMinInitialPoolCoinSupply(r.ctx), PairCreationFee: r.k.GetPairCreationFee(r.ctx), PoolCreationFee: r.k.GetPoolCreationFee(r.ctx), MinInitialDepositAmount: r.k.GetMinInitialDepositAmount(r.ctx),
				MaxPriceLimitRatio: r.k.GetMaxPriceLimitRatio(r.ctx), MaxNumMarketMakingOrderTicks: p.MaxNumMarketMakingOrderTicks, MaxNumMarketMakingOrdersPerPair: r.k.GetMaxNumMarketMakingOrdersPerPair(r.ctx),
				MaxOrderLifespan: r.k.GetMaxOrderLifespan(r.ctx), SwapFeeRate: p.SwapFeeRate, WithdrawFeeRate: r.k.GetWithdrawFeeRate(r.ctx), DepositExtraGas: r.k.GetDepositExtraGas(r.ctx),
				WithdrawExtraGas: r.k.GetWithdrawExtraGas(r.ctx), OrderExtraGas: r.k.GetOrderExtraGas(r.ctx), MaxNumActivePoolsPerPair: r.k.GetMaxNumActivePoolsPerPair(r.ctx)}
			t.Check("C20", "every part of the module sees the new values", sameParams(one, p))
		},
	})
}
