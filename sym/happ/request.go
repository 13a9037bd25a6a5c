package main

import (
	"fmt"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/amm"
	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// putPool stores a pool in an arbitrary state: reserves and supply may be anything.
func (r *run) putPool(p types.Pair, id uint64, ranged bool, rx, ry, ps math.Int, lo, hi string, disabled bool) types.Pool {
	var pool types.Pool
	if ranged {
		pool = types.NewRangedPool(id, p.Id, addr(700), dec(lo), dec(hi))
	} else {
		pool = types.NewBasicPool(id, p.Id, addr(700))
	}
	pool.Disabled = disabled
	r.k.SetPool(r.ctx, pool)
	r.k.SetPoolByReserveIndex(r.ctx, pool)
	r.k.SetPoolsByPairIndex(r.ctx, pool)
	if r.k.GetLastPoolId(r.ctx) < id {
		r.k.SetLastPoolId(r.ctx, id)
	}
	r.fund(pool.GetReserveAddressAcc(), sdk.Coin{Denom: p.QuoteCoinDenom, Amount: rx}, sdk.Coin{Denom: p.BaseCoinDenom, Amount: ry})
	r.fund(addr(701), sdk.Coin{Denom: pool.PoolCoinDenom, Amount: ps})
	return pool
}

func (r *run) supply(d string) math.Int { return r.w.app.BankKeeper.GetSupply(r.ctx, d).Amount }

func depleted(ranged bool, rx, ry, ps math.Int) bool {
	if ranged {
		return ps.IsZero() || rx.IsZero() && ry.IsZero()
	}
	return ps.IsZero() || rx.IsZero() || ry.IsZero()
}

func (r *run) deposit(who sdk.AccAddress, id uint64, cs sdk.Coins) error {
	m := types.NewMsgDeposit(who, id, cs)
	if err := m.ValidateBasic(); err != nil {
		return err
	}
	_, err := r.ms.Deposit(r.ctx, m)
	return err
}

func (r *run) withdraw(who sdk.AccAddress, id uint64, c sdk.Coin) error {
	m := types.NewMsgWithdraw(who, id, c)
	if err := m.ValidateBasic(); err != nil {
		return err
	}
	_, err := r.ms.Withdraw(r.ctx, m)
	return err
}

// reserve profiles: symbolic or concrete
func (r *run) reserves(sym bool) (rx, ry, ps math.Int) {
	t := r.t
	if sym {
		return t.Int("rx", 0, e40), t.Int("ry", 0, e40), t.Int("ps", 0, e40)
	}
	c := [][3]int64{{1000000, 1000000, 1000000000000}, {123456789, 987654321, 77777}, {3, 1000000007, 1000000000000}, {0, 55555, 1000}, {1, 1, 1}, {7, 0, 33}, {5, 5, 0}}[t.Choose("reserves", 7)]
	return math.NewInt(c[0]), math.NewInt(c[1]), math.NewInt(c[2])
}

func init() {
	gesc := types.GlobalEscrowAddress
	depFuncs := "ValidateBasic of MsgDeposit; msgServer.Deposit; Keeper.Deposit, ValidateMsgDeposit, ExecuteDepositRequest, FinishDepositRequest, MarkPoolAsDisabled, DeleteOutdatedRequests; amm.Deposit; BulkSendCoinsOperation; bank MintCoins, SendCoins, InputOutputCoins"
	dep := func(t *vf.T, sym bool) {
		r := start(t)
		p := r.mkPair(base, quote, "")
		r.mkPair(base, other, "")
		ranged := !sym && t.Bool("ranged")
		disabled := t.Bool("disabled")
		rx, ry, ps := r.reserves(sym)
		t.Assume(disabled || ps.IsPositive())
		pool := r.putPool(p, 1, ranged, rx, ry, ps, "0.5", "2", disabled)
		u := addr(1)
		x, y := t.Int("x", 0, vf.Pow10(41)), t.Int("y", 0, vf.Pow10(41))
		fx, fy := x, y
		cs := sdk.NewCoins(sdk.NewCoin(quote, x), sdk.NewCoin(base, y)) // drops zero amounts
		pid := uint64(1)
		bad := false
		switch t.Choose("case", deep(t, 5, 5)) {
		case 1:
			cs = sdk.NewCoins(sdk.NewCoin(other, x), sdk.NewCoin(base, y))
			bad = !x.IsZero()
		case 2:
			pid, bad = 2, true
		case 3: // not enough coins
			fx = x.SubRaw(1)
			if fx.IsNegative() {
				return
			}
			bad = true
		case 4:
			cs = append(sdk.NewCoins(sdk.NewCoin(base, y)), sdk.NewCoins(sdk.NewCoin(other, x), sdk.NewCoin(quote, x))...)
			bad = !x.IsZero()
		}
		r.fund(u, sdk.NewCoin(quote, fx), sdk.NewCoin(base, fy), sdk.NewCoin(other, x))
		cq, cb := cs.AmountOfNoDenomValidation(quote), cs.AmountOfNoDenomValidation(base)
		n := len(cs)
		valid := !bad && !disabled && n > 0 && (ranged || n == 2) && rx.Add(cq).LTE(maxAmt) && ry.Add(cb).LTE(maxAmt)
		res := pool.GetReserveAddressAcc()
		accs := []sdk.AccAddress{u, gesc, res, addr(701)}
		before := r.snap(accs, base, quote, other, pool.PoolCoinDenom)
		sup := r.supply(pool.PoolCoinDenom)
		err := r.deposit(u, pid, cs)
		t.Check("C12", "accepted exactly when allowed", (err == nil) == valid)
		if err != nil || !valid {
			t.Reach("rejected")
			return
		}
		t.Eq("C12", "offered quote coins escrowed", r.delta(before, gesc, quote), cq)
		t.Eq("C12", "offered base coins escrowed", r.delta(before, gesc, base), cb)
		t.Eq("C12", "taken from the depositor: quote", r.delta(before, u, quote), cq.Neg())
		t.Eq("C12", "taken from the depositor: base", r.delta(before, u, base), cb.Neg())
		q, ok := r.k.GetDepositRequest(r.ctx, 1, 1)
		t.Check("C12", "request recorded", ok && q.Depositor == u.String() && q.PoolId == 1 && q.MsgHeight == 1 && q.Status == types.RequestStatusNotExecuted && q.DepositCoins.Equal(cs) && q.AcceptedCoins.IsZero() && q.MintedPoolCoin.IsZero())
		t.Check("C12", "request listed for its owner", len(r.k.GetDepositRequestsByDepositor(r.ctx, u)) == 1)
		r.invariants("C12", "requested")
		// expected outcome
		ax, ay, pc := math.ZeroInt(), math.ZeroInt(), math.ZeroInt()
		dpl := depleted(ranged, rx, ry, ps)
		if !dpl {
			ax, ay, pc = amm.Deposit(rx, ry, ps, cq, cb)
		}
		run := func() {
			if !sym {
				r.endBlock()
				return
			}
			for _, q := range r.k.GetAllDepositRequests(r.ctx) {
				r.must(r.k.ExecuteDepositRequest(r.ctx, q))
			}
		}
		run()
		check := func(when string) {
			t.Eq("C12", when+"depositor gets the rest back: quote", r.delta(before, u, quote), ax.Neg())
			t.Eq("C12", when+"depositor gets the rest back: base", r.delta(before, u, base), ay.Neg())
			t.Eq("C12", when+"pool gets the accepted coins: quote", r.delta(before, res, quote), ax)
			t.Eq("C12", when+"pool gets the accepted coins: base", r.delta(before, res, base), ay)
			t.Eq("C12", when+"depositor gets the minted pool coins", r.delta(before, u, pool.PoolCoinDenom), pc)
			t.Eq("C12", when+"supply grows by the minted pool coins", r.supply(pool.PoolCoinDenom).Sub(sup), pc)
			t.Check("C12", when+"escrow is empty", r.delta(before, gesc, quote).IsZero() && r.delta(before, gesc, base).IsZero() && r.bal(gesc, pool.PoolCoinDenom).IsZero())
		}
		check("executed: ")
		q, _ = r.k.GetDepositRequest(r.ctx, 1, 1)
		pl, _ := r.k.GetPool(r.ctx, 1)
		t.Check("C12", "a depleted pool is disabled, others stay", pl.Disabled == dpl)
		if pc.IsPositive() {
			t.Reach("succeeded")
			t.Check("C12", "marked succeeded", q.Status == types.RequestStatusSucceeded && q.MintedPoolCoin.Denom == pool.PoolCoinDenom)
			t.Eq("C12", "recorded minted coins", q.MintedPoolCoin.Amount, pc)
			t.Eq("C12", "recorded accepted quote coins", q.AcceptedCoins.AmountOf(quote), ax)
			t.Eq("C12", "recorded accepted base coins", q.AcceptedCoins.AmountOf(base), ay)
		} else {
			t.Reach("failed")
			t.Check("C12", "marked failed", q.Status == types.RequestStatusFailed && q.AcceptedCoins.IsZero() && q.MintedPoolCoin.IsZero())
		}
		if sym {
			return
		}
		r.k.MarkPoolAsDisabled(r.ctx, pl) // keeps the pool out of the next matching
		run()                             // a second batch in the same block must not execute it again
		check("again: ")
		r.nextBlock(0)
		_, ok = r.k.GetDepositRequest(r.ctx, 1, 1)
		t.Check("C12", "deleted in the next block", !ok && len(r.k.GetDepositRequestsByDepositor(r.ctx, u)) == 0)
		r.endBlock()
		check("next block: ")
	}
	vf.Register(&vf.Harness{
		Name: "depositsym", Props: []string{"C12"}, Setup: newWorld,
		Bounds: "one deposit to a basic pool, disabled or not, reserves and supply symbolic 0..10^40, deposit symbolic 0..10^41 on each side, wrong denomination, unknown pool, insufficient balance, three coins; then its execution",
		Funcs:  depFuncs, Must: []string{"rejected", "succeeded", "failed"},
		Run: func(t *vf.T) { dep(t, true) },
	})
	vf.Register(&vf.Harness{
		Name: "depositcon", Props: []string{"C12"}, Setup: newWorld,
		Bounds: "as depositsym with 7 concrete reserve profiles, basic and ranged pools, then two batches and a block",
		Funcs:  depFuncs, Must: []string{"rejected", "succeeded", "failed"},
		Run: func(t *vf.T) { dep(t, false) },
	})

	wdFuncs := "ValidateBasic of MsgWithdraw; msgServer.Withdraw; Keeper.Withdraw, ValidateMsgWithdraw, ExecuteWithdrawRequest, FinishWithdrawRequest, MarkPoolAsDisabled, DeleteOutdatedRequests; amm.Withdraw; bank BurnCoins, SendCoins, InputOutputCoins"
	wd := func(t *vf.T, sym bool) {
		r := start(t)
		p := r.mkPair(base, quote, "")
		ranged := !sym && t.Bool("ranged")
		disabled := t.Bool("disabled")
		ps0 := r.k.GetParams(r.ctx)
		ps0.WithdrawFeeRate = dec([]string{"0", "0.003", "1"}[t.Choose("fee", 3)])
		r.k.SetParams(r.ctx, ps0)
		rx, ry, other1 := r.reserves(sym)
		u := addr(1)
		pc := t.Int("pc", 0, e40)
		ps := other1.Add(pc)
		t.Assume(disabled || ps.IsPositive())
		pool := r.putPool(p, 1, ranged, rx, ry, other1, "0.5", "2", disabled)
		r.putPool(r.mkPair(other, quote, ""), 2, true, math.NewInt(1000), math.NewInt(1000), math.NewInt(1000), "0.5", "2", false)
		c := sdk.Coin{Denom: pool.PoolCoinDenom, Amount: pc}
		pid, bad := uint64(1), false
		have := pc
		switch t.Choose("case", 4) {
		case 1:
			pid, bad = 3, true
		case 2:
			pid, bad = 2, true // another pool's coin
		case 3:
			if !pc.IsPositive() {
				return
			}
			have, bad = pc.SubRaw(1), true
			ps = other1.Add(have)
		}
		r.fund(u, sdk.Coin{Denom: c.Denom, Amount: have})
		valid := !bad && !disabled && pc.IsPositive()
		res := pool.GetReserveAddressAcc()
		accs := []sdk.AccAddress{u, gesc, res, addr(701)}
		before := r.snap(accs, base, quote, pool.PoolCoinDenom)
		err := r.withdraw(u, pid, c)
		t.Check("C13", "accepted exactly when allowed", (err == nil) == valid)
		if err != nil || !valid {
			t.Reach("rejected")
			return
		}
		t.Eq("C13", "pool coins escrowed", r.delta(before, gesc, c.Denom), pc)
		t.Eq("C13", "pool coins taken", r.delta(before, u, c.Denom), pc.Neg())
		q, ok := r.k.GetWithdrawRequest(r.ctx, 1, 1)
		t.Check("C13", "request recorded", ok && q.Withdrawer == u.String() && q.PoolId == 1 && q.MsgHeight == 1 && q.Status == types.RequestStatusNotExecuted && q.PoolCoin.Equal(c) && q.WithdrawnCoins.IsZero())
		t.Check("C13", "request listed for its owner", len(r.k.GetWithdrawRequestsByWithdrawer(r.ctx, u)) == 1)
		r.invariants("C13", "requested")
		x, y, burnt := math.ZeroInt(), math.ZeroInt(), math.ZeroInt()
		dpl := depleted(ranged, rx, ry, ps)
		last := false
		if !dpl {
			x, y = amm.Withdraw(rx, ry, ps, pc, ps0.WithdrawFeeRate)
			if x.IsPositive() || y.IsPositive() {
				burnt = pc
				last = pc.Equal(ps)
			}
		}
		run := func() {
			if !sym {
				r.endBlock()
				return
			}
			for _, q := range r.k.GetAllWithdrawRequests(r.ctx) {
				r.must(r.k.ExecuteWithdrawRequest(r.ctx, q))
			}
		}
		run()
		check := func(when string) {
			t.Eq("C13", when+"paid quote coins", r.delta(before, u, quote), x)
			t.Eq("C13", when+"paid base coins", r.delta(before, u, base), y)
			t.Eq("C13", when+"out of the pool: quote", r.delta(before, res, quote), x.Neg())
			t.Eq("C13", when+"out of the pool: base", r.delta(before, res, base), y.Neg())
			t.Eq("C13", when+"burnt", r.supply(c.Denom), ps.Sub(burnt))
			t.Eq("C13", when+"pool coins left", r.delta(before, u, c.Denom), burnt.Neg())
			t.Check("C13", when+"escrow is empty", r.bal(gesc, c.Denom).IsZero() && r.bal(gesc, base).IsZero() && r.bal(gesc, quote).IsZero())
		}
		check("executed: ")
		q, _ = r.k.GetWithdrawRequest(r.ctx, 1, 1)
		pl, _ := r.k.GetPool(r.ctx, 1)
		t.Check("C13", "the pool is disabled when it is empty, not otherwise", pl.Disabled == (dpl || last))
		if burnt.IsPositive() {
			t.Reach("succeeded")
			t.Check("C13", "marked succeeded", q.Status == types.RequestStatusSucceeded)
			t.Eq("C13", "recorded quote coins", q.WithdrawnCoins.AmountOf(quote), x)
			t.Eq("C13", "recorded base coins", q.WithdrawnCoins.AmountOf(base), y)
		} else {
			t.Reach("failed")
			t.Check("C13", "marked failed", q.Status == types.RequestStatusFailed && q.WithdrawnCoins.IsZero())
		}
		if sym {
			return
		}
		r.k.MarkPoolAsDisabled(r.ctx, pl)
		run()
		check("again: ")
		r.nextBlock(0)
		_, ok = r.k.GetWithdrawRequest(r.ctx, 1, 1)
		t.Check("C13", "deleted in the next block", !ok && len(r.k.GetWithdrawRequestsByWithdrawer(r.ctx, u)) == 0)
		r.endBlock()
		check("next block: ")
	}
	vf.Register(&vf.Harness{
		Name: "withdrawsym", Props: []string{"C13"}, Setup: newWorld,
		Bounds: "one withdrawal from a basic pool, disabled or not, reserves, others' supply and redeemed amount symbolic 0..10^40, fee 0, 0.3 % or 100 %, unknown or other pool, insufficient balance; then its execution",
		Funcs:  wdFuncs, Must: []string{"rejected", "succeeded", "failed"},
		Run: func(t *vf.T) { wd(t, true) },
	})
	vf.Register(&vf.Harness{
		Name: "withdrawcon", Props: []string{"C13"}, Setup: newWorld,
		Bounds: "as withdrawsym with 7 concrete reserve profiles, basic and ranged pools, then two batches and a block",
		Funcs:  wdFuncs, Must: []string{"rejected", "succeeded", "failed"},
		Run: func(t *vf.T) { wd(t, false) },
	})
	vf.Register(&vf.Harness{
		Name: "requests", Props: []string{"C12", "C13"}, Setup: newWorld,
		Bounds: "two deposits and two withdrawals to one basic pool (4 profiles) by two accounts in one batch, any one of the four amounts symbolic up to 10^6; they are executed deposits first, each kind in the order requested",
		Funcs:  depFuncs + "; " + wdFuncs, Must: []string{"done"},
		Run: func(t *vf.T) {
			r := start(t)
			p := r.mkPair(base, quote, "")
			prof := [][3]int64{{1000000, 1000000, 1000000000000}, {123456789, 987654321, 77777}, {3, 1000000007, 1000000000000}, {1, 1, 1}}[t.Choose("reserves", 4)]
			rx, ry := math.NewInt(prof[0]), math.NewInt(prof[1])
			which := t.Choose("symbolic", 4)
			val := func(i int, n string, c int64) math.Int {
				if i == which {
					return t.Int(n, 1, 1000000)
				}
				return math.NewInt(c)
			}
			u, v := addr(1), addr(2)
			w1, w2 := val(0, "w1", 5), val(1, "w2", 12345)
			pool := r.putPool(p, 1, false, rx, ry, math.NewInt(prof[2]), "0.5", "2", false)
			r.fund(u, sdk.NewInt64Coin(pool.PoolCoinDenom, 1000000))
			r.fund(v, sdk.NewInt64Coin(pool.PoolCoinDenom, 1000000))
			ps := math.NewInt(prof[2] + 2000000)
			d1, d2 := val(2, "d1", 3), val(3, "d2", 7654321)
			cs1 := sdk.NewCoins(sdk.NewCoin(quote, d1), sdk.NewCoin(base, math.NewInt(500000)))
			cs2 := sdk.NewCoins(sdk.NewCoin(quote, math.NewInt(500000)), sdk.NewCoin(base, d2))
			r.fund(u, cs1...)
			r.fund(v, cs2...)
			res := pool.GetReserveAddressAcc()
			before := r.snap([]sdk.AccAddress{u, v, res, gesc}, base, quote, pool.PoolCoinDenom)
			r.must(r.withdraw(u, 1, sdk.NewCoin(pool.PoolCoinDenom, w1)))
			r.must(r.deposit(u, 1, cs1))
			r.must(r.deposit(v, 1, cs2))
			r.must(r.withdraw(v, 1, sdk.NewCoin(pool.PoolCoinDenom, w2)))
			r.endBlock()
			exp := map[string]math.Int{}
			for _, a := range []string{"u", "v"} {
				for _, d := range []string{quote, base, pool.PoolCoinDenom} {
					exp[a+d] = math.ZeroInt()
				}
			}
			for i, cs := range []sdk.Coins{cs1, cs2} {
				a := []string{"u", "v"}[i]
				ax, ay, pc := amm.Deposit(rx, ry, ps, cs.AmountOf(quote), cs.AmountOf(base))
				if pc.IsZero() {
					ax, ay = math.ZeroInt(), math.ZeroInt()
				}
				rx, ry, ps = rx.Add(ax), ry.Add(ay), ps.Add(pc)
				exp[a+quote], exp[a+base], exp[a+pool.PoolCoinDenom] = exp[a+quote].Sub(ax), exp[a+base].Sub(ay), pc
			}
			for i, w := range []math.Int{w1, w2} {
				a := []string{"u", "v"}[i]
				x, y := amm.Withdraw(rx, ry, ps, w, math.LegacyZeroDec())
				if x.IsZero() && y.IsZero() {
					w = math.ZeroInt()
				}
				rx, ry, ps = rx.Sub(x), ry.Sub(y), ps.Sub(w)
				exp[a+quote], exp[a+base], exp[a+pool.PoolCoinDenom] = exp[a+quote].Add(x), exp[a+base].Add(y), exp[a+pool.PoolCoinDenom].Sub(w)
			}
			prop := "C12"
			if t.On("C13") && !t.On("C12") {
				prop = "C13"
			}
			for i, a := range []sdk.AccAddress{u, v} {
				n := []string{"u", "v"}[i]
				for _, d := range []string{quote, base, pool.PoolCoinDenom} {
					t.Eq(prop, fmt.Sprint("several requests: account ", n, " ", d), r.delta(before, a, d), exp[n+d])
				}
			}
			t.Eq(prop, "several requests: pool quote", r.bal(res, quote), rx)
			t.Eq(prop, "several requests: pool base", r.bal(res, base), ry)
			t.Eq(prop, "several requests: supply", r.supply(pool.PoolCoinDenom), ps)
			t.Check(prop, "several requests: escrow empty", r.bal(gesc, base).IsZero() && r.bal(gesc, quote).IsZero() && r.bal(gesc, pool.PoolCoinDenom).IsZero())
			t.Reach("done")
		},
	})
}
