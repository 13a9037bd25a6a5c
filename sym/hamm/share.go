package main

import (
	"fmt"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
	"defund/x/verif/vf"
)

type prof struct{ rx, ry, ps string }

var profs = []prof{
	{"1000000", "1000000", "1000000"}, {"1", "1", "1"}, {"7", "999983", "10000"}, {"1000003", "3", "1000000000000"},
	{"123456789012345678", "987654321", "10000000000000"}, {"0", "1000000", "1000000"}, {"31337", "0", "100"},
	{"1000000000000000000000000", "1", "1000000000000"}, {"999999999999", "999999999989", "100000000000000000000000000"},
	{"340282366920938463463374607431768211456", "17", "999"}, {"10", "1000000007", "3"},
	{"0", "300000000000000000000", "10000000000000000000000"}, {"300000000000000000000", "0", "10000000000000000000000"}, {"300000000000000000000", "700000000000000000000", "10000000000000000000000"},
}

func mi(s string) math.Int {
	v, ok := math.NewIntFromString(s)
	if !ok {
		panic(s)
	}
	return v
}

// checkDeposit states fairness for reserves rx,ry and supply ps
func checkDeposit(t *vf.T, rx, ry, ps, x, y, ax, ay, pc math.Int) {
	t.Check("C07", "never takes more than offered", ax.LTE(x) && ay.LTE(y) && !ax.IsNegative() && !ay.IsNegative())
	t.Check("C07", "never mints a negative amount", !pc.IsNegative())
	if pc.IsZero() {
		t.Reach("nothing minted")
		t.Check("C07", "nothing is taken when nothing is minted", ax.IsZero() && ay.IsZero())
	} else {
		t.Reach("minted")
	}
	two := e18.MulRaw(2)
	short := true // no side has room for one more pool coin
	for _, s := range []struct{ r, in, acc math.Int }{{rx, x, ax}, {ry, y, ay}} {
		if s.r.IsZero() {
			t.Check("C07", "a side the pool does not hold is not taken", s.acc.IsZero())
			continue
		}
		// existing holders are not diluted: acc/r >= pc/ps up to the 18th decimal
		t.Check("C07", "the minted share is paid for", s.acc.Mul(ps).Mul(two).Add(s.r.Mul(ps)).GTE(s.r.Mul(pc).Mul(two)))
		t.Check("C07", "no more is taken than the minted share needs", s.acc.SubRaw(1).Mul(ps).Mul(two).LTE(s.r.Mul(pc).Mul(two).Add(s.r.Mul(ps))))
		// one more pool coin (and the 18th decimal) would have fitted on this side
		if s.in.Mul(ps).Mul(e18).LTE(s.r.Mul(pc.AddRaw(1)).Mul(e18).Add(s.r.Mul(ps)).Add(s.r.Mul(e18))) {
			short = false
		}
	}
	t.Check("C07", "mints as much as the offer covers", !short)
}

func init() {
	vf.Register(&vf.Harness{
		Name: "deposit", Props: []string{"C07"},
		Bounds: fmt.Sprintf("pools (quote reserve, base reserve, pool coin supply) of %v, every pair of offered amounts 0..10^26 (offers on the sides the pool holds)", profs),
		Funcs:  "amm.Deposit",
		Must:   []string{"minted", "nothing minted"},
		Run: func(t *vf.T) {
			c := profs[t.Choose("pool", len(profs))]
			rx, ry, ps := mi(c.rx), mi(c.ry), mi(c.ps)
			x, y := t.Int("x", 0, vf.Pow10(26)), t.Int("y", 0, vf.Pow10(26))
			ax, ay, pc := amm.Deposit(rx, ry, ps, x, y)
			t.Observe("ax", ax)
			t.Observe("ay", ay)
			t.Observe("pc", pc)
			checkDeposit(t, rx, ry, ps, x, y, ax, ay, pc)
		},
	})
	type q struct{ n, d int64 }
	qs := []q{{1, 1}, {1, 2}, {3, 2}, {1, 3}, {7, 1000003}, {1000003, 7}}
	pss := []string{"1", "100", "999", "1000000000000", "100000000000000000001"}
	vf.Register(&vf.Harness{
		Name: "depositprop", Props: []string{"C07"},
		Bounds: fmt.Sprintf("any reserves k·d (both sides, 1..10^24 each), offers k·n with n/d of %v on either side, supplies %v", qs, pss),
		Funcs:  "amm.Deposit",
		Must:   []string{"minted"},
		Run: func(t *vf.T) {
			a, b := qs[t.Choose("qx", len(qs))], qs[t.Choose("qy", len(qs))]
			ps := mi(pss[t.Choose("ps", len(pss))])
			k, l := t.Int("k", 1, vf.Pow10(18)), t.Int("l", 1, vf.Pow10(18))
			rx, x, ry, y := k.MulRaw(a.d), k.MulRaw(a.n), l.MulRaw(b.d), l.MulRaw(b.n)
			ax, ay, pc := amm.Deposit(rx, ry, ps, x, y)
			t.Observe("ax", ax)
			t.Observe("ay", ay)
			t.Observe("pc", pc)
			checkDeposit(t, rx, ry, ps, x, y, ax, ay, pc)
		},
	})
	fees := []string{"0", "0.003", "0.5", "1"}
	check := func(t *vf.T, rx, ry, ps, pc math.Int, fee math.LegacyDec, x, y math.Int) {
		keep := e18.Sub(rawInt(fee))
		for _, s := range []struct{ r, out math.Int }{{rx, x}, {ry, y}} {
			t.Check("C08", "pays at most the reserve", s.out.LTE(s.r) && !s.out.IsNegative())
			if pc.Equal(ps) {
				t.Reach("last")
				t.Eq("C08", "the last pool coins redeem everything", s.out, s.r)
				continue
			}
			t.Reach("part")
			t.Check("C08", "pays at most the share less the fee", s.out.Mul(ps).Mul(e18).LTE(s.r.Mul(pc).Mul(keep)))
			// at most one unit and the 18th decimal of the share are lost
			t.Check("C08", "pays the share less the fee, rounded down", s.out.AddRaw(1).Mul(ps).Mul(e18).Add(s.r.Mul(ps)).Add(ps).GTE(s.r.Mul(pc).Mul(keep)))
		}
		t.Observe("x", x)
		t.Observe("y", y)
	}
	vf.Register(&vf.Harness{
		Name: "withdraw", Props: []string{"C08"},
		Bounds: fmt.Sprintf("pools of %v, every redeemed amount 1..supply, fee rates %v", profs, fees),
		Funcs:  "amm.Withdraw",
		Must:   []string{"last", "part"},
		Run: func(t *vf.T) {
			c := profs[t.Choose("pool", len(profs))]
			fee := dec(fees[t.Choose("fee", len(fees))])
			rx, ry, ps := mi(c.rx), mi(c.ry), mi(c.ps)
			pc := t.Int("pc", 1, ps.BigInt())
			x, y := amm.Withdraw(rx, ry, ps, pc, fee)
			check(t, rx, ry, ps, pc, fee, x, y)
		},
	})
	vf.Register(&vf.Harness{
		Name: "withdrawres", Props: []string{"C08"},
		Bounds: fmt.Sprintf("any reserves 0..10^30 and any fee rate with 18 decimals in turn (the other concrete), redeemed/supply of %v", qs),
		Funcs:  "amm.Withdraw",
		Must:   []string{"last", "part"},
		Run: func(t *vf.T) {
			q := qs[t.Choose("share", 5)]
			if q.n > q.d {
				q.n, q.d = q.d, q.n
			}
			ps, pc := in(q.d), in(q.n)
			if t.Bool("anyfee") {
				fee := t.Dec("fee", 0, e18)
				c := profs[t.Choose("pool", len(profs))]
				rx, ry := mi(c.rx), mi(c.ry)
				x, y := amm.Withdraw(rx, ry, ps, pc, fee)
				check(t, rx, ry, ps, pc, fee, x, y)
				return
			}
			fee := dec(fees[t.Choose("fee", len(fees))])
			rx, ry := t.Int("rx", 0, vf.Pow10(30)), t.Int("ry", 0, vf.Pow10(30))
			x, y := amm.Withdraw(rx, ry, ps, pc, fee)
			check(t, rx, ry, ps, pc, fee, x, y)
		},
	})
	vf.Register(&vf.Harness{
		Name: "roundtrip", Props: []string{"C08"},
		Bounds: fmt.Sprintf("pools of %v, a deposit of any amounts 1..10^26 followed by redeeming everything minted, no fee; at most one unit and the 18th decimal of the reserve may be gained", profs[:8]),
		Funcs:  "amm.Deposit, amm.Withdraw",
		Must:   []string{"redeemed"},
		Run: func(t *vf.T) {
			c := profs[t.Choose("pool", 8)]
			rx, ry, ps := mi(c.rx), mi(c.ry), mi(c.ps)
			x, y := t.Int("x", 1, vf.Pow10(26)), t.Int("y", 1, vf.Pow10(26))
			ax, ay, pc := amm.Deposit(rx, ry, ps, x, y)
			if !pc.IsPositive() {
				return
			}
			wx, wy := amm.Withdraw(rx.Add(ax), ry.Add(ay), ps.Add(pc), pc, math.LegacyZeroDec())
			t.Reach("redeemed")
			tol := func(r math.Int) math.Int { return r.Quo(e18).AddRaw(1) }
			t.Check("C08", "depositing and redeeming gains nothing", wx.LTE(ax.Add(tol(rx))) && wy.LTE(ay.Add(tol(ry))))
		},
	})
}
