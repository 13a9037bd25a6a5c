package main

import (
	"math/big"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

func digits(i math.Int) int { return len(i.BigInt().Text(10)) }

// existing pools of the pair: returns how many are active, and whether an active basic one is among them
func (r *run) oldPools(p types.Pair, n int) (active int, basic bool) {
	put := func(id uint64, ranged, off bool) {
		q := r.putPool(p, id, ranged, math.NewInt(5000000), math.NewInt(5000000), math.NewInt(1000000), "0.5", "2", off)
		if !off {
			active++
			basic = basic || q.Type == types.PoolTypeBasic
		}
	}
	switch n {
	case 1:
		put(1, false, true)
	case 2:
		put(1, true, false)
		put(2, true, true)
	case 3:
		put(1, true, false)
		put(2, true, false)
	case 4:
		put(1, true, false)
		put(2, false, false)
	case 5:
		put(1, true, true)
		put(2, false, true)
		put(3, true, false)
		put(4, false, true)
		put(5, true, false)
	}
	return
}

// priceOK tells whether x/y is certainly within, certainly outside the pool price range (10^-15..10^20) or too close to its ends to tell.
func poolPrice(x, y math.Int) (in, out bool) {
	lo := new(big.Int).Mul(x.BigInt(), vf.Pow10(18))
	y1 := new(big.Int).Mul(y.BigInt(), big.NewInt(1000))
	y0 := new(big.Int).Mul(y.BigInt(), big.NewInt(999))
	hi := new(big.Int).Mul(y.BigInt(), vf.Pow10(38))
	hi1 := new(big.Int).Add(hi, y.BigInt())
	if lo.Cmp(y0) <= 0 || lo.Cmp(hi1) >= 0 {
		return false, true
	}
	if lo.Cmp(y1) >= 0 && lo.Cmp(hi) <= 0 {
		return true, false
	}
	return false, false
}

var ranges = [][3]string{{"0.5", "2", "0.5"}, {"0.5", "2", "2"}, {"0.5", "2", "1"}, {"0.9", "1.1", "1.0999"}, {"0.000000000000001", "100000000000000000000", "1"}, {"12.3", "45.67", "33.333"},
	{"0.5", "2", "0.4"}, {"0.5", "2", "2.1"}, {"2", "0.5", "1"}, {"1", "1.0001", "1"}, {"0.500001", "2", "1"}, {"0.5", "2.00001", "1"}, {"0.5", "2", "1.00001"}, {"0.0000000000000009", "2", "1"}, {"0.5", "100010000000000000000", "1"}, {"1", "1.001", "1"}, {"1", "1.001", "1.0005"}}

func mi(s string) math.Int {
	v, ok := math.NewIntFromString(s)
	if !ok {
		panic(s)
	}
	return v
}

func init() {
	mk := func(t *vf.T, kind int) {
		r := start(t)
		p := r.mkPair(base, quote, "")
		p2 := r.mkPair(other, quote, "")
		r.putPool(p2, 7, false, math.NewInt(5000000), math.NewInt(5000000), math.NewInt(1000000), "", "", false)
		r.k.SetLastPoolId(r.ctx, 0)
		old := 0
		pr := r.k.GetParams(r.ctx)
		maxPools := uint32(20)
		gi := 0
		if kind == 1 {
			gi = t.Choose("range", len(ranges))
		}
		if gi == 0 {
			old = t.Choose("existing", 6)
			maxPools = []uint32{20, 2, 1, 0}[t.Choose("max pools", 4)]
		}
		active, basic := r.oldPools(p, old)
		r.k.SetLastPoolId(r.ctx, 10)
		pr.MaxNumActivePoolsPerPair = maxPools
		minDep := t.Int("min deposit", 0, vf.Pow10(12))
		pr.MinInitialDepositAmount = minDep
		minPS := t.Int("min supply", 1, vf.Pow10(15))
		pr.MinInitialPoolCoinSupply = minPS
		fee := t.Int("fee", 1, vf.Pow10(20))
		pr.PoolCreationFee = sdk.NewCoins(sdk.NewCoin("feea", fee))
		r.k.SetParams(r.ctx, pr)
		col := r.k.GetFeeCollector(r.ctx)
		var x, y math.Int
		if two := kind == 1 && ranges[gi][2] != ranges[gi][0] && ranges[gi][2] != ranges[gi][1]; two && gi < 6 || two && gi >= 15 {
			v := []string{"0", "1", "999999", "1000000", "31415926535", "1000000000000000007", e40, "10000000000000000000000000000000000000001"}
			x, y = mi(v[t.Choose("x", len(v))]), mi(v[t.Choose("y", len(v))])
		} else {
			x, y = t.Int("x", 0, vf.Pow10(41)), t.Int("y", 0, vf.Pow10(41))
		}
		if old != 0 { // the amounts are the subject of the first case
			t.Assume(x.GTE(math.NewInt(1000000000000)))
			t.Assume(y.GTE(math.NewInt(1000000000000)))
			t.Assume(x.LTE(math.NewInt(1000000000001)))
			t.Assume(y.LTE(math.NewInt(1000000000001)))
		}
		u := addr(1)
		cs := sdk.NewCoins(sdk.NewCoin(quote, x), sdk.NewCoin(base, y))
		hx, hy, hf := x, y, fee
		bad := false
		pid := uint64(1)
		switch t.Choose("case", 6) {
		case 1:
			cs, bad = sdk.NewCoins(sdk.NewCoin(other, x), sdk.NewCoin(base, y)), !x.IsZero()
		case 2:
			pid, bad = 9, true
		case 3:
			if x.IsZero() {
				return
			}
			hx, bad = x.SubRaw(1), kind == 0 || ranges[gi][2] == ranges[gi][1]
		case 4:
			if y.IsZero() {
				return
			}
			hy, bad = y.SubRaw(1), kind == 0 || ranges[gi][2] == ranges[gi][0]
		case 5:
			hf, bad = fee.SubRaw(1), true
		}
		r.fund(u, sdk.NewCoin(quote, hx), sdk.NewCoin(base, hy), sdk.NewCoin(other, x), sdk.NewCoin("feea", hf))
		var pool types.Pool
		var m interface{ ValidateBasic() error }
		var rg [3]string
		in, out := true, false
		if kind == 0 {
			m = types.NewMsgCreatePool(u, pid, cs)
			if len(cs) == 2 {
				in, out = poolPrice(x, y)
			}
		} else {
			rg = ranges[gi]
			out = gi >= 6 && gi < 15
			in = !out
			m = types.NewMsgCreateRangedPool(u, pid, cs, dec(rg[0]), dec(rg[1]), dec(rg[2]))
		}
		res := types.PoolReserveAddress(11)
		pcd := types.PoolCoinDenom(11)
		accs := []sdk.AccAddress{u, res, col}
		before := r.snap(accs, base, quote, other, "feea", pcd)
		err := m.ValidateBasic()
		if err == nil {
			c, write := r.ctx.CacheContext()
			if kind == 0 {
				_, err = r.ms.CreatePool(c, m.(*types.MsgCreatePool))
			} else {
				_, err = r.ms.CreateRangedPool(c, m.(*types.MsgCreateRangedPool))
			}
			if err == nil {
				write()
			}
		}
		t.Reach(map[bool]string{true: "created", false: "rejected"}[err == nil])
		within := x.LTE(maxAmt) && y.LTE(maxAmt)
		ok := !bad && within && !out && uint32(active) < maxPools
		if kind == 0 {
			ok = ok && !basic && x.IsPositive() && y.IsPositive() && x.GTE(minDep) && y.GTE(minDep)
			if err == nil {
				t.Check("C15", "a basic pool is created only if allowed", ok)
			} else if ok && in {
				t.Check("C15", "a basic pool is created if allowed", false)
			}
		} else if err == nil {
			t.Check("C15", "a ranged pool is created only if allowed", ok && (x.IsPositive() || y.IsPositive()))
		}
		pool, found := r.k.GetPool(r.ctx, 11)
		t.Check("C15", "the pool exists exactly if the request succeeded", found == (err == nil))
		if err != nil {
			if kind == 0 || bad || !ok {
				return
			}
			// a ranged pool that would take too little is refused
			lone := rg[2] == rg[0] && y.GTE(minDep) && y.IsPositive() || rg[2] == rg[1] && x.GTE(minDep) && x.IsPositive()
			t.Check("C15", "a one-sided ranged pool is created if allowed", !lone)
			if rg[0] == "0.5" && rg[2] == "1" { // takes equal amounts of both
				t.Check("C15", "a ranged pool is created if its two sides suffice", hx.LT(x) || hy.LT(y) || !(x.GT(minDep) && x.Equal(y) && x.GT(math.OneInt())))
			}
			return
		}
		ax, ay := r.delta(before, res, quote), r.delta(before, res, base)
		t.Eq("C15", "quote coins go from the creator to the reserve", r.delta(before, u, quote), ax.Neg())
		t.Eq("C15", "base coins go from the creator to the reserve", r.delta(before, u, base), ay.Neg())
		t.Check("C15", "no more quote coins are taken than offered", ax.LTE(x) && !ax.IsNegative())
		t.Check("C15", "no more base coins are taken than offered", ay.LTE(y) && !ay.IsNegative())
		if kind == 0 {
			t.Eq("C15", "the whole quote offer is deposited", ax, x)
			t.Eq("C15", "the whole base offer is deposited", ay, y)
			t.Check("C15", "type", pool.Type == types.PoolTypeBasic && pool.MinPrice == nil && pool.MaxPrice == nil)
		} else {
			t.Check("C15", "type and range", pool.Type == types.PoolTypeRanged && pool.MinPrice.Equal(dec(rg[0])) && pool.MaxPrice.Equal(dec(rg[1])))
			switch rg[2] {
			case rg[0]:
				t.Check("C15", "a pool starting at its lowest price takes base coins only", ax.IsZero() && ay.Equal(y))
			case rg[1]:
				t.Check("C15", "a pool starting at its highest price takes quote coins only", ay.IsZero() && ax.Equal(x))
			default:
				t.Check("C15", "one side is used up", ax.Equal(x) || ay.Equal(y))
			}
			t.Check("C15", "one side reaches the minimum deposit", ax.GTE(minDep) || ay.GTE(minDep))
		}
		t.Eq("C15", "the creator pays the fee", r.delta(before, u, "feea"), fee.Neg())
		t.Eq("C15", "the fee collector gets the fee", r.delta(before, col, "feea"), fee)
		ps := r.supply(pcd)
		t.Eq("C15", "the creator gets the whole supply", r.delta(before, u, pcd), ps)
		t.Check("C15", "at least the minimum supply is minted", ps.GTE(minPS))
		want := math.NewIntFromBigInt(vf.Pow10((digits(ax) + digits(ay) + 1) / 2))
		if want.LT(minPS) {
			want = minPS
		}
		t.Eq("C15", "the minted supply has the geometric mean's magnitude", ps, want)
		t.Check("C15", "its record", pool.Id == 11 && r.k.GetLastPoolId(r.ctx) == 11 && pool.PairId == 1 && pool.Creator == u.String() && !pool.Disabled && pool.PoolCoinDenom == pcd && pool.LastDepositRequestId == 0 && pool.LastWithdrawRequestId == 0 && pool.ReserveAddress == res.String())
		byRes, ok1 := r.k.GetPoolByReserveAddress(r.ctx, res)
		n := 0
		_ = r.k.IteratePoolsByPair(r.ctx, 1, func(q types.Pool) (bool, error) { n++; return false, nil })
		have := []int{0, 1, 2, 2, 2, 5}[old]
		t.Check("C15", "it is found by its account and its pair", ok1 && byRes.Id == 11 && n == have+1)
		r.invariants("C15", "created")
	}
	fn := "; Keeper.ValidateMsgCreatePool, ValidateMsgCreateRangedPool, SetPool, SetPoolByReserveIndex, SetPoolsByPairIndex; InitialPoolCoinSupply; NewBasicPool, NewRangedPool, PoolReserveAddress; bank SendCoins, MintCoins"
	vf.Register(&vf.Harness{
		Name: "newbasic", Props: []string{"C15"}, Setup: newWorld,
		Bounds: "one creation of a basic pool, deposits symbolic 0..10^41, minimum deposit 0..10^12, minimum supply 1..10^15 and fee 1..10^20 symbolic, 6 sets of existing pools, 4 limits of active pools, wrong denomination, unknown pair, one unit too little of each coin",
		Funcs:  "MsgCreatePool.ValidateBasic; msgServer.CreatePool; Keeper.CreatePool; amm.CreateBasicPool" + fn,
		Must:   []string{"created", "rejected"},
		Run:    func(t *vf.T) { mk(t, 0) },
	})
	vf.Register(&vf.Harness{
		Name: "newranged", Props: []string{"C15"}, Setup: newWorld,
		Bounds: "one creation of a ranged pool in 17 price ranges (8 allowed, one-sided, two-sided, widest, narrowest; 9 not), deposits symbolic 0..10^41 (in two-sided ranges 64 concrete ones), minimum deposit 0..10^12, minimum supply 1..10^15 and fee 1..10^20 symbolic, for the first range also 6 sets of existing pools and 4 limits of active pools, wrong denomination, unknown pair, one unit too little of each coin",
		Funcs:  "MsgCreateRangedPool.ValidateBasic, amm.ValidateRangedPoolParams; msgServer.CreateRangedPool; Keeper.CreateRangedPool; amm.CreateRangedPool" + fn,
		Must:   []string{"created", "rejected"},
		Run:    func(t *vf.T) { mk(t, 1) },
	})
}
