package main

import (
	"fmt"

	"cosmossdk.io/math"

	"defund/x/dex/amm"
)

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }
func in(n int64) math.Int         { return math.NewInt(n) }

var zero = math.ZeroInt()

// cost of amt at price p, rounded up / down, by integer arithmetic of its own
func mulUp(p math.LegacyDec, amt math.Int) math.Int {
	one := math.NewIntWithDecimal(1, 18)
	return math.NewIntFromBigInt(p.BigInt()).Mul(amt).Add(one.SubRaw(1)).Quo(one)
}
func mulDown(p math.LegacyDec, amt math.Int) math.Int {
	return math.NewIntFromBigInt(p.BigInt()).Mul(amt).Quo(math.NewIntWithDecimal(1, 18))
}

// ord is an order that records how it was filled.
type ord struct {
	*amm.BaseOrder
	id    int
	batch uint64
	fills int64
}

func newOrd(id int, dir amm.OrderDirection, price math.LegacyDec, amt, offer math.Int, batch uint64) *ord {
	return &ord{BaseOrder: amm.NewBaseOrder(dir, price, amt, offer), id: id, batch: batch}
}

func (o *ord) GetBatchId() uint64 { return o.batch }
func (o *ord) SetOpenAmount(a math.Int) {
	o.fills++
	o.BaseOrder.SetOpenAmount(a)
}
func (o *ord) HasPriority(other amm.Order) bool {
	p := other.(*ord)
	if !o.Amount.Equal(p.Amount) {
		return o.Amount.GT(p.Amount)
	}
	return o.id < p.id
}
func (o *ord) String() string { return fmt.Sprintf("ord%d", o.id) }

func (o *ord) matched() math.Int { return o.Amount.Sub(o.GetOpenAmount()) }

func (o *ord) recvBase() math.Int {
	if o.Direction == amm.Buy {
		return o.ReceivedDemandCoinAmount
	}
	return o.PaidOfferCoinAmount
}

// matchable is how much of the order can trade at p, from the order's terms alone.
func matchable(o *ord, p math.LegacyDec) math.Int {
	m := o.GetOpenAmount()
	if o.Direction == amm.Buy {
		left := o.OfferCoinAmount.Sub(o.PaidOfferCoinAmount)
		can := left.Mul(math.NewIntWithDecimal(1, 18)).Quo(math.NewIntFromBigInt(p.BigInt()))
		if can.LT(m) {
			m = can
		}
	}
	if mulDown(p, m).IsZero() {
		return zero
	}
	return m
}

func sum(os []*ord, f func(*ord) math.Int) math.Int {
	s := zero
	for _, o := range os {
		s = s.Add(f(o))
	}
	return s
}
