package main

import (
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

var long1, long2 = "l" + strings.Repeat("a", 127), "l" + strings.Repeat("a", 126) + "b"

func init() {
	vf.Register(&vf.Harness{
		Name: "pair", Props: []string{"C14"}, Setup: newWorld,
		Bounds: "one creation request over 10 denomination choices (equal, swapped, prefixes of each other, 128 letters, invalid), any of 4 sets of existing pairs, creation fee of none, one or two denominations with symbolic amounts 1..10^40, creator's balances symbolic 0..10^40",
		Funcs:  "MsgCreatePair.ValidateBasic; msgServer.CreatePair; Keeper.CreatePair, ValidateMsgCreatePair, SetPair, SetPairIndex, SetPairLookupIndex, GetPairByDenoms; NewPair, PairEscrowAddress; GetPairKey, GetPairIndexKey, GetPairsByDenomsIndexKey; Pairs query; bank SendCoins",
		Must:   []string{"created", "exists", "poor", "invalid"},
		Run: func(t *vf.T) {
			r := start(t)
			denoms := [][2]string{{base, quote}, {quote, base}, {base, base}, {base, other}, {"bas", "equote"}, {"baseq", "uote"}, {long1, long2}, {long2, long1}, {"", quote}, {base, "1x"}}
			old := [][][2]string{{}, {{base, quote}}, {{quote, base}, {base, other}, {long2, long1}}, {{"bas", "equote"}, {other, quote}, {long1, long2}}}[t.Choose("existing", 4)]
			d := denoms[t.Choose("denoms", len(denoms))]
			exists := false
			for _, o := range old {
				r.mkPair(o[0], o[1], "")
				exists = exists || o == d
			}
			pr := r.k.GetParams(r.ctx)
			col := sdk.MustAccAddressFromBech32(pr.FeeCollectorAddress)
			f1, f2 := t.Int("fee1", 1, e40), t.Int("fee2", 1, e40)
			b1, b2 := t.Int("have1", 0, e40), t.Int("have2", 0, e40)
			rich := true
			pr.PairCreationFee = nil
			nf := t.Choose("fees", 3)
			if nf > 0 {
				pr.PairCreationFee = append(pr.PairCreationFee, sdk.NewCoin("feea", f1))
			}
			if nf > 1 {
				pr.PairCreationFee = append(pr.PairCreationFee, sdk.NewCoin("feeb", f2))
			}
			r.k.SetParams(r.ctx, pr)
			u := addr(1)
			r.fund(u, sdk.NewCoin("feea", b1), sdk.NewCoin("feeb", b2))
			if nf > 0 && b1.LT(f1) {
				rich = false
			}
			if rich && nf > 1 && b2.LT(f2) {
				rich = false
			}
			before := r.snap([]sdk.AccAddress{u, col}, "feea", "feeb")
			all := r.k.GetAllPairs(r.ctx)
			last := r.k.GetLastPairId(r.ctx)
			t.Check("C14", "the last id is the number of pairs", last == uint64(len(old)) && len(all) == len(old))
			m := types.NewMsgCreatePair(u, d[0], d[1])
			err := m.ValidateBasic()
			bad := d[0] == d[1] || d[0] == "" || d[1] == "1x"
			t.Check("C14", "malformed denominations are rejected", (err != nil) == bad)
			if bad {
				t.Reach("invalid")
				return
			}
			if err == nil {
				c, write := r.ctx.CacheContext()
				if _, err = r.ms.CreatePair(c, m); err == nil {
					write()
				}
			}
			t.Check("C14", "accepted exactly when allowed", (err == nil) == (!exists && rich))
			if err != nil {
				t.Reach(map[bool]string{true: "exists", false: "poor"}[exists])
				t.Check("C14", "a rejected request changes nothing", r.k.GetLastPairId(r.ctx) == last && len(r.k.GetAllPairs(r.ctx)) == len(all))
				t.Eq("C14", "a rejected request costs nothing", r.delta(before, u, "feea").Add(r.delta(before, u, "feeb")), sdk.NewInt64Coin(base, 0).Amount)
				return
			}
			t.Reach("created")
			for i, f := range []struct{ d string }{{"feea"}, {"feeb"}} {
				want := pr.PairCreationFee.AmountOf(f.d)
				t.Eq("C14", "the creator pays the fee "+"12"[i:i+1], r.delta(before, u, f.d), want.Neg())
				t.Eq("C14", "the fee collector gets the fee "+"12"[i:i+1], r.delta(before, col, f.d), want)
			}
			p, ok := r.k.GetPair(r.ctx, last+1)
			t.Check("C14", "it gets the next id", ok && p.Id == last+1 && r.k.GetLastPairId(r.ctx) == last+1)
			t.Check("C14", "its contents", p.BaseCoinDenom == d[0] && p.QuoteCoinDenom == d[1] && p.LastPrice == nil && p.CurrentBatchId == 1 && p.LastOrderId == 0)
			now := r.k.GetAllPairs(r.ctx)
			t.Check("C14", "one pair more", len(now) == len(all)+1)
			for _, q := range now {
				g, ok := r.k.GetPairByDenoms(r.ctx, q.BaseCoinDenom, q.QuoteCoinDenom)
				t.Check("C14", "every pair is found by its denominations", ok && g.Id == q.Id)
				if q.Id != p.Id {
					t.Check("C14", "escrow accounts are distinct", q.EscrowAddress != p.EscrowAddress)
				}
			}
			for i, q := range all {
				g, ok := r.k.GetPair(r.ctx, q.Id)
				t.Check("C14", "other pairs stay", ok && g.EscrowAddress == all[i].EscrowAddress && g.BaseCoinDenom == q.BaseCoinDenom && g.QuoteCoinDenom == q.QuoteCoinDenom)
			}
			t.Check("C14", "the escrow account is empty", r.bal(esc(p), d[0]).IsZero() && r.bal(esc(p), d[1]).IsZero())
			// lookups in both orders and by one denomination list exactly the pairs concerned
			for _, ask := range [][]string{{d[0], d[1]}, {d[1], d[0]}, {d[0]}, {d[1]}} {
				want := map[uint64]bool{}
				for _, q := range now {
					has := true
					for _, x := range ask {
						has = has && (q.BaseCoinDenom == x || q.QuoteCoinDenom == x)
					}
					if has {
						want[q.Id] = true
					}
				}
				res, err := r.k.Pairs(r.ctx, &types.QueryPairsRequest{Denoms: ask})
				good := err == nil && len(res.Pairs) == len(want)
				if good {
					for _, q := range res.Pairs {
						good = good && want[q.Id]
						delete(want, q.Id)
					}
				}
				t.Check("C14", "the pair is found by its denominations in any order", good && len(want) == 0)
			}
			c, _ := r.ctx.CacheContext()
			r.fund(u, sdk.NewCoin("feea", f1), sdk.NewCoin("feeb", f2))
			_, err = r.ms.CreatePair(c, m)
			t.Check("C14", "the same pair cannot be created twice", err != nil)
		},
	})
}
