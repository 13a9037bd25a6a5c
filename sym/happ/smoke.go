package main

import (
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

func init() {
	vf.Register(&vf.Harness{
		Name: "smoke", Props: []string{"C00"}, Setup: newWorld,
		Run: func(t *vf.T) {
			r := start(t)
			a, b := addr(1), addr(2)
			r.fund(a, r.k.GetPairCreationFee(r.ctx)...)
			p, err := r.k.CreatePair(r.ctx, types.NewMsgCreatePair(a, "base", "quote"))
			r.must(err)
			lp := dec("1")
			p.LastPrice = &lp
			r.k.SetPair(r.ctx, p)
			x := t.Int("x", 1, "1000000000000")
			y := t.Int("y", 1, "1000000000000")
			prs := []string{"0.95", "1.05"}
			bp := dec(prs[t.Choose("bp", 2)])
			sp := dec(prs[t.Choose("sp", 2)])
			off := bp.MulInt(x).Ceil().TruncateInt()
			r.fund(a, sdk.NewCoin("quote", off))
			r.fund(b, sdk.NewCoin("base", y))
			_, err = r.k.LimitOrder(r.ctx, types.NewMsgLimitOrder(a, 1, types.OrderDirectionBuy, sdk.NewCoin("quote", off), "base", bp, x, time.Hour))
			t.Check("C00", "buy ok", err == nil)
			_, err = r.k.LimitOrder(r.ctx, types.NewMsgLimitOrder(b, 1, types.OrderDirectionSell, sdk.NewCoin("base", y), "quote", sp, y, time.Hour))
			t.Check("C00", "sell ok", err == nil)
			r.endBlock()
			t.Observe("a.base", r.bal(a, "base"))
			t.Observe("b.quote", r.bal(b, "quote"))
			t.Check("C00", "conserve", r.bal(a, "base").Add(r.bal(b, "base")).Add(r.bal(sdk.MustAccAddressFromBech32(p.EscrowAddress), "base")).Equal(y))
			t.Check("C00", "full", r.bal(a, "base").Equal(x))
		},
	})
}
