package main

import (
	"math/big"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/x/dex/types"
	"defund/x/verif/vf"
)

const (
	base  = "base"
	quote = "quote"
	other = "other"
	e40   = "10000000000000000000000000000000000000000" // the largest coin amount a message may carry
)

var one18 = vf.Pow10(18)

// snap is the balance sheet of the accounts a harness watches.
type snap map[string]math.Int

func (r *run) snap(accs []sdk.AccAddress, denoms ...string) snap {
	s := snap{}
	for _, a := range accs {
		for _, d := range denoms {
			s[string(a)+"/"+d] = r.bal(a, d)
		}
	}
	return s
}

func (s snap) of(a sdk.AccAddress, d string) math.Int { return s[string(a)+"/"+d] }

// delta returns how much the balance grew since the snapshot.
func (r *run) delta(s snap, a sdk.AccAddress, d string) math.Int { return r.bal(a, d).Sub(s.of(a, d)) }

// mkPair creates a pair and sets its last price ("" = none).
func (r *run) mkPair(b, q, last string) types.Pair {
	c := addr(900)
	r.fund(c, r.k.GetPairCreationFee(r.ctx)...)
	p, err := r.k.CreatePair(r.ctx, types.NewMsgCreatePair(c, b, q))
	r.must(err)
	if last != "" {
		lp := dec(last)
		p.LastPrice = &lp
		r.k.SetPair(r.ctx, p)
	}
	return p
}

func (r *run) pair(id uint64) types.Pair {
	p, ok := r.k.GetPair(r.ctx, id)
	if !ok {
		panic("no pair")
	}
	return p
}

// price levels of the grid, computed from the decimal digits: prec+1 significant digits.
func gridDown(p math.LegacyDec, prec int) math.LegacyDec {
	raw := p.BigInt()
	s := raw.String()
	n := len(s) - (prec + 1)
	if n <= 0 {
		return p
	}
	m := vf.Pow10(n)
	q := new(big.Int).Quo(raw, m)
	return math.LegacyNewDecFromBigIntWithPrec(q.Mul(q, m), 18)
}

func gridUp(p math.LegacyDec, prec int) math.LegacyDec {
	d := gridDown(p, prec)
	if d.Equal(p) {
		return p
	}
	n := len(d.BigInt().String()) - (prec + 1)
	return math.LegacyNewDecFromBigIntWithPrec(new(big.Int).Add(d.BigInt(), vf.Pow10(n)), 18)
}

// ceilMul is the smallest integer not below p*a.
func ceilMul(p math.LegacyDec, a math.Int) math.Int {
	n := new(big.Int).Mul(p.BigInt(), a.BigInt())
	n.Add(n, new(big.Int).Sub(one18, big.NewInt(1)))
	return math.NewIntFromBigInt(n.Quo(n, one18))
}

func (r *run) at(height int64, t time.Time) { r.ctx = r.ctx.WithBlockHeight(height).WithBlockTime(t) }

func (r *run) nextBlock(d time.Duration) {
	r.at(r.ctx.BlockHeight()+1, r.ctx.BlockTime().Add(d))
	r.beginBlock()
}

func denomsOf(dir types.OrderDirection) (offer, demand string) {
	if dir == types.OrderDirectionBuy {
		return quote, base
	}
	return base, quote
}

func esc(p types.Pair) sdk.AccAddress { return sdk.MustAccAddressFromBech32(p.EscrowAddress) }

// deep picks the bound of the tier.
func deep(t *vf.T, quick, thorough int) int {
	if t.Thorough() {
		return thorough
	}
	return quick
}
