package main

import (
	"context"
	"encoding/binary"
	"time"

	"cosmossdk.io/math"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"defund/app"
	"defund/x/dex/keeper"
	"defund/x/dex/types"
	"defund/x/verif/vf"
)

// world is one application instance; every path works on its own cached branch of the state.
type world struct {
	app  *app.App
	base sdk.Context
}

var t0 = time.Date(2024, 1, 1, 0, 0, 0, 987654321, time.UTC)

func newWorld() any {
	a := app.InitTestApp(true)
	ctx := a.BaseApp.NewContext(true).WithBlockHeader(cmtproto.Header{Height: 1, Time: t0})
	a.DexKeeper.SetParams(ctx, types.DefaultParams())
	return &world{app: a, base: ctx}
}

// run is the state of one path.
type run struct {
	t   *vf.T
	w   *world
	k   keeper.Keeper
	ms  types.MsgServer
	ctx sdk.Context
}

func start(t *vf.T) *run {
	w := t.Env.(*world)
	ctx, _ := w.base.CacheContext()
	return &run{t: t, w: w, k: w.app.DexKeeper, ms: keeper.NewMsgServerImpl(w.app.DexKeeper), ctx: ctx}
}

func addr(n int) sdk.AccAddress {
	a := make(sdk.AccAddress, 20)
	binary.PutVarint(a, int64(n))
	return a
}

func (r *run) must(err error) {
	if err != nil {
		panic(err)
	}
}

func (r *run) fund(a sdk.AccAddress, coins ...sdk.Coin) {
	c := sdk.NewCoins(coins...)
	r.must(r.w.app.BankKeeper.MintCoins(r.ctx, types.ModuleName, c))
	r.must(r.w.app.BankKeeper.SendCoinsFromModuleToAccount(r.ctx, types.ModuleName, a, c))
}

func (r *run) bal(a sdk.AccAddress, denom string) math.Int {
	return r.w.app.BankKeeper.GetBalance(r.ctx, a, denom).Amount
}

// the module as the application runs it
func (r *run) module() any { return r.w.app.ModuleManager.Modules[types.ModuleName] }

func (r *run) endBlock() {
	r.must(r.module().(interface{ EndBlock(context.Context) error }).EndBlock(r.ctx))
}

func (r *run) beginBlock() {
	r.must(r.module().(interface{ BeginBlock(context.Context) error }).BeginBlock(r.ctx))
}

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }
