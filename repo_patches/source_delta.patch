From 1ca799a82020b3cc5841da237e050b08a65c0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 01/12] fix: export and import the whole dex state in the
 module's genesis

The module's InitGenesis/ExportGenesis handled the parameters only, so an
export lost all pairs, pools, orders, requests and counters while their coins
stayed in the escrow and reserve accounts.
---
 x/dex/module/genesis.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/x/dex/module/genesis.go b/x/dex/module/genesis.go
index 1686aed..0c7b878 100644
--- a/x/dex/module/genesis.go
+++ b/x/dex/module/genesis.go
@@ -10,13 +10,12 @@ import (
 // InitGenesis initializes the module's state from a provided genesis state.
 func InitGenesis(ctx sdk.Context, k keeper.Keeper, genState types.GenesisState) {
 	// this line is used by starport scaffolding # genesis/module/init
-	k.SetParams(ctx, genState.Params)
+	k.InitGenesis(ctx, genState)
 }
 
 // ExportGenesis returns the module's exported genesis.
 func ExportGenesis(ctx sdk.Context, k keeper.Keeper) *types.GenesisState {
-	genesis := types.DefaultGenesis()
-	genesis.Params = k.GetParams(ctx)
+	genesis := k.ExportGenesis(ctx)
 
 	// this line is used by starport scaffolding # genesis/module/export
 
-- 
2.43.0


From a0f16ae779990cc30d5cbc7fd981d89e657683a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/12] fix: keep the authority and the logger in the dex
 keeper

NewKeeper dropped both, so MsgUpdateParams was rejected for every sender,
governance included, and Logger() dereferenced nil.
---
 x/dex/keeper/keeper.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/dex/keeper/keeper.go b/x/dex/keeper/keeper.go
index a784a46..b806e6e 100644
--- a/x/dex/keeper/keeper.go
+++ b/x/dex/keeper/keeper.go
@@ -46,6 +46,8 @@ func NewKeeper(
 	return Keeper{
 		cdc:           cdc,
 		storeService:  storeService,
+		logger:        logger,
+		authority:     authority,
 		paramSpace:    paramSpace,
 		accountKeeper: accountKeeper,
 		bankKeeper:    bankKeeper,
-- 
2.43.0


From a1e88adc27645a9ce99d4907fd1356dc6c4b2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 03/12] fix: register the dex invariants with the crisis module

---
 x/dex/module/module.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/dex/module/module.go b/x/dex/module/module.go
index e1be265..5f07847 100644
--- a/x/dex/module/module.go
+++ b/x/dex/module/module.go
@@ -122,7 +122,9 @@ func (am AppModule) RegisterServices(cfg module.Configurator) {
 }
 
 // RegisterInvariants registers the invariants of the module. If an invariant deviates from its predicted value, the InvariantRegistry triggers appropriate logic (most often the chain will be halted)
-func (am AppModule) RegisterInvariants(_ sdk.InvariantRegistry) {}
+func (am AppModule) RegisterInvariants(ir sdk.InvariantRegistry) {
+	keeper.RegisterInvariants(ir, am.keeper)
+}
 
 // InitGenesis performs the module's genesis initialization. It returns no validator updates.
 func (am AppModule) InitGenesis(ctx sdk.Context, cdc codec.JSONCodec, gs json.RawMessage) {
-- 
2.43.0


From 37362ec7519721e654f3476fde34507fbeb3bcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 04/12] fix: accept single-coin deposit requests of ranged
 pools in the genesis

Such a request is valid for a ranged pool, but an export containing one could
not be imported.
---
 x/dex/types/genesis.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/genesis.go b/x/dex/types/genesis.go
index 024ccab..af9b916 100644
--- a/x/dex/types/genesis.go
+++ b/x/dex/types/genesis.go
@@ -67,8 +67,13 @@ func (genState GenesisState) Validate() error {
 			return fmt.Errorf("deposit request at index %d has wrong minted pool coin: %s", i, req.MintedPoolCoin)
 		}
 		pair := pairMap[pool.PairId]
-		if req.DepositCoins.AmountOf(pair.BaseCoinDenom).IsZero() ||
-			req.DepositCoins.AmountOf(pair.QuoteCoinDenom).IsZero() {
+		for _, coin := range req.DepositCoins {
+			if coin.Denom != pair.BaseCoinDenom && coin.Denom != pair.QuoteCoinDenom {
+				return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
+			}
+		}
+		// Only a ranged pool takes deposits of a single coin.
+		if pool.Type == PoolTypeBasic && len(req.DepositCoins) != 2 {
 			return fmt.Errorf("deposit request at index %d has wrong deposit coins: %s", i, req.DepositCoins)
 		}
 		if set, ok := depositReqSet[req.PoolId]; ok {
-- 
2.43.0


From 1ac3e039f3b9ef2fd62df4165cffdee0d8ef9e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 05/12] fix: distribute the whole matched amount to the orders
 of a tick

Leaving out the orders which would receive nothing could leave a part of
the amount undistributed: the opposite side received more base coins than
this side paid, the escrow account fell short and a later settlement
halted the chain.
---
 x/dex/amm/match.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/x/dex/amm/match.go b/x/dex/amm/match.go
index af58cfb..ac87616 100644
--- a/x/dex/amm/match.go
+++ b/x/dex/amm/match.go
@@ -383,8 +383,12 @@ func DistributeOrderAmountToOrders(orders []Order, amt sdk.Int, price sdk.Legacy
 
 	if len(notMatchedOrders) > 0 {
 		if len(matchedOrders) == 0 {
-			return DistributeOrderAmountToOrders(orders[:len(orders)-1], amt, price)
-		} else {
+			matchedOrders = orders[:len(orders)-1]
+		}
+		// Leave out the orders that would receive nothing only if the other
+		// orders can take up the whole amount. Otherwise a part of the amount
+		// would be left undistributed, while the opposite side has it matched.
+		if TotalMatchableAmount(matchedOrders, price).GTE(amt) {
 			return DistributeOrderAmountToOrders(matchedOrders, amt, price)
 		}
 	}
-- 
2.43.0


From 1e482f889a1754b24adb390fedd5e2d10a86e888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 06/12] fix: parse pair index keys of denoms with more than 126
 characters

The offsets were computed in a byte, so that queries of the pairs of a
denom with 127 or 128 characters panicked.
---
 x/dex/types/keys.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/keys.go b/x/dex/types/keys.go
index aa2d840..2e28e60 100644
--- a/x/dex/types/keys.go
+++ b/x/dex/types/keys.go
@@ -158,9 +158,9 @@ func ParsePairsByDenomsIndexKey(key []byte) (denomA, denomB string, pairId uint6
 		panic("key does not have proper prefix")
 	}
 
-	denomALen := key[1]
+	denomALen := int(key[1])
 	denomA = string(key[2 : 2+denomALen])
-	denomBLen := key[2+denomALen]
+	denomBLen := int(key[2+denomALen])
 	denomB = string(key[3+denomALen : 3+denomALen+denomBLen])
 	pairId = sdk.BigEndianToUint64(key[3+denomALen+denomBLen:])
 
-- 
2.43.0


From 7080bd9a4ca95898c6dd7bff5d6d1372db666b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 07/12] fix: do not divide by zero for a ranged pool almost
 sold out at a high price

1/sqrt(P) and 1/sqrt(L) can round to the same value while sqrt(P) and sqrt(L)
differ. The panic came out of the end blocker and halted the chain.
---
 x/dex/amm/pool.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index de2e851..3cd7431 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -563,9 +563,11 @@ func DeriveTranslation(rx, ry sdk.Int, minPrice, maxPrice sdk.LegacyDec) (transX
 		// sqrtK = sqrt(K) = rx / (sqrt(P) - sqrt(M))
 		sqrtK = rxDec.Quo(sqrtP.Sub(sqrtM))
 	}
-	if !sqrtP.Equal(sqrtL) {
+	// 1/sqrt(P) - 1/sqrt(L), which can be zero even if sqrt(P) and sqrt(L) differ
+	// since both of them are rounded to 18 decimals.
+	if invDiff := inv(sqrtP).Sub(inv(sqrtL)); invDiff.IsPositive() {
 		// sqrtK2 = sqrt(K') = ry / (1/sqrt(P) - 1/sqrt(L))
-		sqrtK2 := ryDec.Quo(inv(sqrtP).Sub(inv(sqrtL)))
+		sqrtK2 := ryDec.Quo(invDiff)
 		if sqrtK.IsNil() { // P == M
 			sqrtK = sqrtK2
 		} else {
-- 
2.43.0


From 5b59b57bac62caa6eb7bdc21c85b034c06790012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 08/12] fix: price a ranged pool with next to no quote coins
 left at its maximum price

ry + transY rounds to zero there, and the division by zero halted the chain in
a market without a last price.
---
 x/dex/amm/pool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index 3cd7431..4f0ec5b 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -332,6 +332,9 @@ func (pool *RangedPool) Price() sdk.LegacyDec {
 	if pool.rx.IsZero() && pool.ry.IsZero() {
 		panic("pool price is not defined for a depleted pool")
 	}
+	if pool.yComp.IsZero() { // (ry + transY) is too small to be represented
+		return pool.maxPrice
+	}
 	return pool.xComp.Quo(pool.yComp) // (rx + transX) / (ry + transY)
 }
 
-- 
2.43.0


From 82b80856debe60e90cb2087b9b32e64d43dd3e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 09/12] fix: do not take a ranged pool priced above 2e18 for a
 single asset pool

ry/rx rounds to zero at such prices although ry is worth as much as rx. The pool
was priced off by up to 40 % and sold below its minimum price.
---
 x/dex/amm/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/dex/amm/pool.go b/x/dex/amm/pool.go
index 4f0ec5b..784d8fc 100644
--- a/x/dex/amm/pool.go
+++ b/x/dex/amm/pool.go
@@ -550,7 +550,7 @@ func DeriveTranslation(rx, ry sdk.Int, minPrice, maxPrice sdk.LegacyDec) (transX
 		sqrtP = sqrtL
 	case rxDec.Quo(ryDec).IsZero(): // y asset single pool
 		sqrtP = sqrtM
-	case ryDec.Quo(rxDec).IsZero(): // x asset single pool
+	case ryDec.Quo(rxDec).IsZero() && ryDec.Mul(maxPrice).Quo(rxDec).IsZero(): // x asset single pool
 		sqrtP = sqrtL
 	default: // normal pool
 		// sqrtXOverY = sqrt(rx/ry)
-- 
2.43.0


From e7600c6cbfe75b75391d15ad25655ed9b689a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:37 +0000
Subject: [PATCH 10/12] fix: answer pool queries for a depleted pool that is
 not disabled yet

A pool is disabled only in the next batch after it has lost its coins; until then
the Pool, PoolByReserveAddress, PoolByPoolCoinDenom and Pools queries failed with
a recovered panic.
---
 x/dex/types/util.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x/dex/types/util.go b/x/dex/types/util.go
index 970011c..6e65298 100644
--- a/x/dex/types/util.go
+++ b/x/dex/types/util.go
@@ -65,8 +65,11 @@ func (op *BulkSendCoinsOperation) Run(ctx sdk.Context, bankKeeper BankKeeper) er
 func NewPoolResponse(pool Pool, rx, ry sdk.Coin, poolCoinSupply math.Int) PoolResponse {
 	var price *math.LegacyDec
 	if !pool.Disabled {
-		p := pool.AMMPool(rx.Amount, ry.Amount, math.Int{}).Price()
-		price = &p
+		// A depleted pool has no price. It stays enabled until the next batch.
+		if ammPool := pool.AMMPool(rx.Amount, ry.Amount, poolCoinSupply); !ammPool.IsDepleted() {
+			p := ammPool.Price()
+			price = &p
+		}
 	}
 	return PoolResponse{
 		Type:           pool.Type,
-- 
2.43.0


From 6db4adb8d5f2504532fecfbce7b5146d05e7a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 11/12] fix: reject a price limit ratio of 1 or more and a
 withdraw fee rate above 1

---
 x/dex/types/params.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/dex/types/params.go b/x/dex/types/params.go
index 140c184..229dfea 100644
--- a/x/dex/types/params.go
+++ b/x/dex/types/params.go
@@ -270,6 +270,11 @@ func validateMaxPriceLimitRatio(i interface{}) error {
 		return fmt.Errorf("max price limit ratio must not be negative: %s", v)
 	}
 
+	// the lowest price allowed, lastPrice * (1 - ratio), must be positive
+	if v.GTE(math.LegacyOneDec()) {
+		return fmt.Errorf("max price limit ratio must be less than 1: %s", v)
+	}
+
 	return nil
 }
 
@@ -335,6 +340,10 @@ func validateWithdrawFeeRate(i interface{}) error {
 		return fmt.Errorf("withdraw fee rate must not be negative: %s", v)
 	}
 
+	if v.GT(math.LegacyOneDec()) {
+		return fmt.Errorf("withdraw fee rate must not be greater than 1: %s", v)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 17a8e4e293173756e95d41295360058757670169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:59 +0000
Subject: [PATCH 12/12] fix: zero-height export with allowed validators
 panicked: remove newly jailed validators from the power index

---
 app/export.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/export.go b/app/export.go
index f6f22f9..d46b8cb 100644
--- a/app/export.go
+++ b/app/export.go
@@ -208,7 +208,11 @@ func (app *App) prepForZeroHeightGenesis(ctx sdk.Context, jailAllowedAddrs []str
 		}
 
 		validator.UnbondingHeight = 0
-		if applyAllowedAddrs && !allowedAddrsMap[addr.String()] {
+		if applyAllowedAddrs && !allowedAddrsMap[addr.String()] && !validator.Jailed {
+			// a jailed validator must not remain in the power index
+			if err := app.StakingKeeper.DeleteValidatorByPowerIndex(ctx, validator); err != nil {
+				panic(err)
+			}
 			validator.Jailed = true
 		}
 
-- 
2.43.0

