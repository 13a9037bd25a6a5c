From 13a09fb558adc6af9944e277023693cbd23c31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 01/14] fix: keep base coin conserved when orders are dropped
 from a pro-rata distribution

When some orders of a batch would receive nothing, they were dropped and the
whole amount handed to the remaining ones even if these could not take it, so
the buy and the sell side of a match were filled by different amounts.
---
 x/dex/amm/match.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/dex/amm/match.go b/x/dex/amm/match.go
index af58cfb..4a90d82 100644
--- a/x/dex/amm/match.go
+++ b/x/dex/amm/match.go
@@ -383,8 +383,11 @@ func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.Legacy
 
 	if len(notMatchedOrders) > 0 {
 		if len(matchedOrders) == 0 {
-			return DistributeOrderAmountToOrders(orders[:len(orders)-1], amt, price)
-		} else {
+			matchedOrders = orders[:len(orders)-1]
+		}
+		// Drop the not matched orders only when the other orders can take
+		// the whole amount, otherwise the two sides of the match would differ.
+		if TotalMatchableAmount(matchedOrders, price).GTE(amt) {
 			return DistributeOrderAmountToOrders(matchedOrders, amt, price)
 		}
 	}
-- 
2.43.0


From d8dffb88a4b8d53266996b7915f2d7c1d749071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 02/14] fix: remember the authority and the logger given to the
 keeper

---
 x/dex/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/dex/keeper/keeper.go b/x/dex/keeper/keeper.go
index a784a46..b806e6e 100644
--- a/x/dex/keeper/keeper.go
+++ b/x/dex/keeper/keeper.go
@@ -46,6 +46,8 @@ func NewKeeper(
 	return Keeper{
 		cdc:           cdc,
 		storeService:  storeService,
+		logger:        logger,
+		authority:     authority,
 		paramSpace:    paramSpace,
 		accountKeeper: accountKeeper,
 		bankKeeper:    bankKeeper,
-- 
2.43.0


From 1051bed15e2491f4ba307c4fd244166ee148f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 03/14] fix: reject invalid parameters in UpdateParams with an
 error

---
 x/dex/keeper/msg_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/dex/keeper/msg_server.go b/x/dex/keeper/msg_server.go
index 2f08ca8..b385418 100644
--- a/x/dex/keeper/msg_server.go
+++ b/x/dex/keeper/msg_server.go
@@ -135,6 +135,10 @@ func (k msgServer) UpdateParams(goCtx context.Context, req *types.MsgUpdateParam
 		return nil, errorsmod.Wrapf(types.ErrInvalidSigner, "invalid authority; expected %s, got %s", k.GetAuthority(), req.Authority)
 	}
 
+	if err := req.Params.Validate(); err != nil {
+		return nil, err
+	}
+
 	ctx := sdk.UnwrapSDKContext(goCtx)
 	k.SetParams(ctx, req.Params)
 
-- 
2.43.0


From 84a54500c2d36464e0bb8116b6171d09b7c9fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 04/14] fix: import and export the whole dex state in the
 module's genesis

---
 x/dex/module/genesis.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/x/dex/module/genesis.go b/x/dex/module/genesis.go
index 1686aed..0c7b878 100644
--- a/x/dex/module/genesis.go
+++ b/x/dex/module/genesis.go
@@ -10,13 +10,12 @@ import (
 // InitGenesis initializes the module's state from a provided genesis state.
 func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState) {
 	// this line is used by starport scaffolding # genesis/module/init
-	k.SetParams(ctx, genState.Params)
+	k.InitGenesis(ctx, genState)
 }
 
 // ExportGenesis returns the module's exported genesis.
 func ExportGenesis(ctx sdk.Context, k keeper.Keeper) *types.GenesisState {
-	genesis := types.DefaultGenesis()
-	genesis.Params = k.GetParams(ctx)
+	genesis := k.ExportGenesis(ctx)
 
 	// this line is used by starport scaffolding # genesis/module/export
 
-- 
2.43.0


From 0857dad1ff27830d4aa38e31894a04cbb37ea3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 05/14] fix: register the dex module's invariants

---
 x/dex/module/module.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/dex/module/module.go b/x/dex/module/module.go
index e1be265..5f07847 100644
--- a/x/dex/module/module.go
+++ b/x/dex/module/module.go
@@ -122,7 +122,9 @@ func (am AppModule) RegisterServices(cfg module.Configurator) {
 }
 
 // RegisterInvariants registers the invariants of the module. If an invariant deviates from its predicted value, the InvariantRegistry triggers appropriate logic (most often the chain will be halted)
-func (am AppModule) RegisterInvariants(_ sdk.InvariantRegistry) {}
+func (am AppModule) RegisterInvariants(ir sdk.InvariantRegistry) {
+	keeper.RegisterInvariants(ir, am.keeper)
+}
 
 // InitGenesis performs the module's genesis initialization. It returns no validator updates.
 func (am AppModule) InitGenesis(ctx sdk.Context, cdc codec.JSONCodec, gs json.RawMessage) {
-- 
2.43.0


From 522ba8d8a36eccfd53275e083274030a0fb22cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 06/14] fix: do not overflow when parsing index keys with long
 denominations or addresses

---
 x/dex/types/keys.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/dex/types/keys.go b/x/dex/types/keys.go
index aa2d840..302d93a 100644
--- a/x/dex/types/keys.go
+++ b/x/dex/types/keys.go
@@ -158,9 +158,9 @@ func ParsePairsByDenomsIndexKey(key []byte) (denomA, denomB string, pairId uint6
 		panic("key does not have proper prefix")
 	}
 
-	denomALen := key[1]
+	denomALen := int(key[1])
 	denomA = string(key[2 : 2+denomALen])
-	denomBLen := key[2+denomALen]
+	denomBLen := int(key[2+denomALen])
 	denomB = string(key[3+denomALen : 3+denomALen+denomBLen])
 	pairId = sdk.BigEndianToUint64(key[3+denomALen+denomBLen:])
 
@@ -184,7 +184,7 @@ func ParseDepositRequestIndexKey(key []byte) (depositor sdk.AccAddress, poolId,
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	depositor = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -197,7 +197,7 @@ func ParseWithdrawRequestIndexKey(key []byte) (withdrawer sdk.AccAddress, poolId
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	withdrawer = key[2 : 2+addrLen]
 	poolId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	reqId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -210,7 +210,7 @@ func ParseOrderIndexKey(key []byte) (orderer sdk.AccAddress, pairId, orderId uin
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	orderer = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen : 2+addrLen+8])
 	orderId = sdk.BigEndianToUint64(key[2+addrLen+8:])
@@ -223,7 +223,7 @@ func ParseNumMMOrdersKey(key []byte) (ordererAddr sdk.AccAddress, pairId uint64)
 		panic("key does not have proper prefix")
 	}
 
-	addrLen := key[1]
+	addrLen := int(key[1])
 	ordererAddr = key[2 : 2+addrLen]
 	pairId = sdk.BigEndianToUint64(key[2+addrLen:])
 	return
-- 
2.43.0


From fe6c82c90e787c466024501725676ccc61b75fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 07/14] fix: accept single-sided deposit requests to ranged
 pools in the genesis state

---
 x/dex/types/genesis.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 024ccab..091bf7b 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -67,10 +67,15 @@ func (genState GenesisState) Validate() error {
 			return fmt.Errorf("deposit request at index %d has wrong minted pool coin: %s", i, req.MintedPoolCoin)
 		}
 		pair := pairMap[pool.PairId]
-		if req.DepositCoins.AmountOf(pair.BaseCoinDenom).IsZero() ||
-			req.DepositCoins.AmountOf(pair.QuoteCoinDenom).IsZero() {
+		// Only ranged pools accept single-sided deposits.
+		if pool.Type != PoolTypeRanged && len(req.DepositCoins) != 2 {
 			return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
 		}
+		for _, coin := range req.DepositCoins {
+			if coin.Denom != pair.BaseCoinDenom && coin.Denom != pair.QuoteCoinDenom {
+				return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+			}
+		}
 		if set, ok := depositReqSet[req.PoolId]; ok {
 			if _, ok := set[req.Id]; ok {
 				return fmt.Errorf("deposit request at index %d has a duplicate id: %d", i, req.Id)
-- 
2.43.0


From 671bc14f42f9f2226fecf406458e909f973d13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:20 +0000
Subject: [PATCH 08/14] fix: let the num-mm-orders invariant report missing
 records

---
 x/dex/keeper/invariants.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/dex/keeper/invariants.go b/x/dex/keeper/invariants.go
index 35c7fc0..37f2e6b 100644
--- a/x/dex/keeper/invariants.go
+++ b/x/dex/keeper/invariants.go
@@ -177,6 +177,14 @@ func NumMMOrdersInvariant(k Keeper) sdk.Invariant {
 			}
 			return false
 		})
+		_ = k.IterateAllOrders(ctx, func(order types.Order) (stop bool, err error) {
+			if order.Type == types.OrderTypeMM && !order.Status.ShouldBeDeleted() &&
+				k.GetNumMMOrders(ctx, order.GetOrdererAcc(), order.PairId) == 0 {
+				count++
+				msg += fmt.Sprintf("\torderer %s has no record of mm orders in pair %d\n", order.Orderer, order.PairId)
+			}
+			return false, nil
+		})
 		broken := count != 0
 		return sdk.FormatInvariant(
 			types.ModuleName, "num-mm-orders",
-- 
2.43.0


From 54cc2ef8194f19c4bbf47773aa42ef300de8b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:33 +0000
Subject: [PATCH 09/14] fix: answer queries on depleted pools instead of
 panicking

---
 x/dex/keeper/grpc_query.go | 6 ++++--
 x/dex/types/util.go        | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/x/dex/keeper/grpc_query.go b/x/dex/keeper/grpc_query.go
index 77afbfa..6bbe614 100644
--- a/x/dex/keeper/grpc_query.go
+++ b/x/dex/keeper/grpc_query.go
@@ -7,7 +7,6 @@ import (
 	"google.golang.org/grpc/codes"
 	"google.golang.org/grpc/status"
 
-	"cosmossdk.io/math"
 	"cosmossdk.io/store/prefix"
 	"github.com/cosmos/cosmos-sdk/runtime"
 	sdk "github.com/cosmos/cosmos-sdk/types"
@@ -554,7 +553,10 @@ func (k Keeper) OrderBooks(c context.Context, req *types.QueryOrderBooksRequest)
 				return false, nil
 			}
 			rx, ry := k.getPoolBalances(ctx, pool, pair)
-			ammPool := pool.AMMPool(rx.Amount, ry.Amount, math.Int{})
+			ammPool := pool.AMMPool(rx.Amount, ry.Amount, k.GetPoolCoinSupply(ctx, pool))
+			if ammPool.IsDepleted() {
+				return false, nil
+			}
 			ob.AddOrder(amm.PoolOrders(ammPool, amm.DefaultOrderer, lowestPrice, highestPrice, int(tickPrec))...)
 			return false, nil
 		})
diff --git a/x/dex/types/util.go b/x/dex/types/util.go
index 970011c..5ff4dfd 100644
--- a/x/dex/types/util.go
+++ b/x/dex/types/util.go
@@ -65,8 +65,11 @@ func (op *BulkSendCoinsOperation) Run(ctx sdk.Context, bankKeeper BankKeeper) er
 func NewPoolResponse(pool Pool, rx, ry sdk.Coin, poolCoinSupply math.Int) PoolResponse {
 	var price *math.LegacyDec
 	if !pool.Disabled {
-		p := pool.AMMPool(rx.Amount, ry.Amount, math.Int{}).Price()
-		price = &p
+		ammPool := pool.AMMPool(rx.Amount, ry.Amount, poolCoinSupply)
+		if !ammPool.IsDepleted() {
+			p := ammPool.Price()
+			price = &p
+		}
 	}
 	return PoolResponse{
 		Type:           pool.Type,
-- 
2.43.0


From b85edf20d860e28acab9d8c761ce025c9118751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:41 +0000
Subject: [PATCH 10/14] fix: reject parameters that halt the chain at the end
 of a block

---
 x/dex/types/params.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 140c184..9717724 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -170,11 +170,15 @@ func validateBatchSize(i interface{}) error {
 }
 
 func validateTickPrecision(i interface{}) error {
-	_, ok := i.(uint32)
+	v, ok := i.(uint32)
 	if !ok {
 		return fmt.Errorf("invalid parameter type: %T", i)
 	}
 
+	if v > math.LegacyPrecision {
+		return fmt.Errorf("tick precision must not be greater than %d: %d", math.LegacyPrecision, v)
+	}
+
 	return nil
 }
 
@@ -270,6 +274,10 @@ func validateMaxPriceLimitRatio(i interface{}) error {
 		return fmt.Errorf("max price limit ratio must not be negative: %s", v)
 	}
 
+	if v.GTE(math.LegacyOneDec()) {
+		return fmt.Errorf("max price limit ratio must be less than 1: %s", v)
+	}
+
 	return nil
 }
 
@@ -335,6 +343,10 @@ func validateWithdrawFeeRate(i interface{}) error {
 		return fmt.Errorf("withdraw fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("withdraw fee rate must not be greater than 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c85d485dce94c6ea94833c00d953811d8c0b2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:49 +0000
Subject: [PATCH 11/14] fix: order book view matches a book that clears
 completely

OrderBookView.Match returned early when every buy tick had no more demand
than supply and every sell tick no more supply than demand. That is the
case exactly when the crossing orders on both sides match each other
completely, so the order book query showed the crossed orders as if
nothing was going to be matched.
---
 x/dex/amm/view.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x/dex/amm/view.go b/x/dex/amm/view.go
index 3d40472..a1662b8 100644
--- a/x/dex/amm/view.go
+++ b/x/dex/amm/view.go
@@ -67,9 +67,6 @@ func (view *OrderBookView) Match() {
 		return view.SellAmountUnder(view.sellAmtAccSums[i].price, true).GT(
 			view.BuyAmountOver(view.sellAmtAccSums[i].price, true))
 	})
-	if buyIdx == len(view.buyAmtAccSums) && sellIdx == len(view.sellAmtAccSums) {
-		return
-	}
 	matchAmt := sdk.ZeroInt()
 	if buyIdx > 0 {
 		matchAmt = view.buyAmtAccSums[buyIdx-1].sum
-- 
2.43.0


From 528e78ae25cf4916ef49db0986940674917afe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:19 +0000
Subject: [PATCH 12/14] fix: refuse orders with more open or remaining than
 they started with in the genesis state

---
 x/dex/types/request.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/dex/types/request.go b/x/dex/types/request.go
index 640ea16..8cbe830 100644
--- a/x/dex/types/request.go
+++ b/x/dex/types/request.go
@@ -248,6 +248,9 @@ func (order Order) Validate() error {
 	if order.OfferCoin.Denom != order.RemainingOfferCoin.Denom {
 		return fmt.Errorf("offer coin denom %s != remaining offer coin denom %s", order.OfferCoin.Denom, order.RemainingOfferCoin.Denom)
 	}
+	if order.RemainingOfferCoin.Amount.GT(order.OfferCoin.Amount) {
+		return fmt.Errorf("remaining offer coin %s must not be greater than offer coin %s", order.RemainingOfferCoin, order.OfferCoin)
+	}
 	if err := order.ReceivedCoin.Validate(); err != nil {
 		return fmt.Errorf("invalid received coin %s: %w", order.ReceivedCoin, err)
 	}
@@ -260,6 +263,9 @@ func (order Order) Validate() error {
 	if order.OpenAmount.IsNegative() {
 		return fmt.Errorf("open amount must not be negative: %s", order.OpenAmount)
 	}
+	if order.OpenAmount.GT(order.Amount) {
+		return fmt.Errorf("open amount %s must not be greater than amount %s", order.OpenAmount, order.Amount)
+	}
 	if order.BatchId == 0 {
 		return fmt.Errorf("batch id must not be 0")
 	}
-- 
2.43.0


From 794545e94a137fef4beb7c8be86d7eab7706dff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:25 +0000
Subject: [PATCH 13/14] fix: validate the market-making order records of the
 genesis state before importing it

---
 x/dex/types/genesis.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 091bf7b..c09628e 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -2,6 +2,8 @@ package types
 
 import (
 	"fmt"
+
+	sdk "github.com/cosmos/cosmos-sdk/types"
 )
 
 // DefaultGenesis returns the default Capability genesis state
@@ -140,7 +142,24 @@ func (genState GenesisState) Validate() error {
 		}
 		orderSet[order.PairId][order.Id] = struct{}{}
 	}
-	for _, record := range genState.NumMarketMakingOrdersRecords {
+	type numMMOrdersKey struct {
+		orderer string
+		pairId  uint64
+	}
+	numMMOrdersSet := map[numMMOrdersKey]struct{}{}
+	for i, record := range genState.NumMarketMakingOrdersRecords {
+		orderer, err := sdk.AccAddressFromBech32(record.Orderer)
+		if err != nil {
+			return fmt.Errorf("number of MM order record at index %d has invalid orderer address: %w", i, err)
+		}
+		if _, ok := pairMap[record.PairId]; !ok {
+			return fmt.Errorf("number of MM order record at index %d has unknown pair id: %d", i, record.PairId)
+		}
+		key := numMMOrdersKey{orderer.String(), record.PairId}
+		if _, ok := numMMOrdersSet[key]; ok {
+			return fmt.Errorf("number of MM order record at index %d is a duplicate", i)
+		}
+		numMMOrdersSet[key] = struct{}{}
 		if record.NumMarketMakingOrders == 0 {
 			return fmt.Errorf("number of MM order must be positive")
 		}
-- 
2.43.0


From 23c4fe8d78a9b482f51a896e72fbbd87808637bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:26 +0000
Subject: [PATCH 14/14] fix: refuse two pairs with the same denominations in
 the genesis state

---
 x/dex/types/genesis.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index c09628e..1c1c5b1 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -28,6 +28,7 @@ func (genState GenesisState) Validate() error {
 		return fmt.Errorf("invalid params: %w", err)
 	}
 	pairMap := map[uint64]Pair{}
+	denomPairSet := map[[2]string]struct{}{}
 	for i, pair := range genState.Pairs {
 		if err := pair.Validate(); err != nil {
 			return fmt.Errorf("invalid pair at index %d: %w", i, err)
@@ -38,6 +39,11 @@ func (genState GenesisState) Validate() error {
 		if _, ok := pairMap[pair.Id]; ok {
 			return fmt.Errorf("pair at index %d has a duplicate id: %d", i, pair.Id)
 		}
+		denomPair := [2]string{pair.BaseCoinDenom, pair.QuoteCoinDenom}
+		if _, ok := denomPairSet[denomPair]; ok {
+			return fmt.Errorf("pair at index %d has duplicate denoms: %s/%s", i, pair.BaseCoinDenom, pair.QuoteCoinDenom)
+		}
+		denomPairSet[denomPair] = struct{}{}
 		pairMap[pair.Id] = pair
 	}
 	poolMap := map[uint64]Pool{}
-- 
2.43.0

