From ed73230cfc36786234bad9b34db3cc280d738b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 01/11] fix: simulate a mint as it is executed

Minting charges a fee of at least one and takes at least one of each token;
the simulation quoted zero where unit * amount or rate * amount rounds down
to zero, and failed there when no funds were given.
---
 contracts/core/src/query.rs       |  4 ++--
 contracts/core/src/state/units.rs | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/contracts/core/src/query.rs b/contracts/core/src/query.rs
index 3cb78d7..a1ff6d8 100644
--- a/contracts/core/src/query.rs
+++ b/contracts/core/src/query.rs
@@ -186,9 +186,9 @@ pub fn simulate_mint(
         .transpose()?
         .unwrap_or(index_units);
 
-    let spent = index_units.calc_require_amount(amount);
+    let spent = index_units.calc_deposit_amount(amount);
     let refund = index_units.calc_refund_amount(funds.unwrap_or_else(|| spent.clone()), amount)?;
-    let mint_fee = fee.mint_fee.map(|v| v * amount);
+    let mint_fee = fee.mint_fee.map(|v| (v * amount).max(Uint128::one()));
     let mint_send = amount.checked_sub(mint_fee.unwrap_or_default())?;
 
     Ok(SimulateMintResponse {
diff --git a/contracts/core/src/state/units.rs b/contracts/core/src/state/units.rs
index ee7ad7f..9564f53 100644
--- a/contracts/core/src/state/units.rs
+++ b/contracts/core/src/state/units.rs
@@ -131,16 +131,20 @@ impl Units {
             .collect::<Vec<_>>()
     }
 
+    // minting takes at least one of each token
+    pub fn calc_deposit_amount(&self, index_amount: Uint128) -> Vec<Coin> {
+        self.calc_require_amount(index_amount)
+            .into_iter()
+            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
+            .collect::<Vec<_>>()
+    }
+
     pub fn calc_refund_amount(
         &self,
         mut funds: Vec<Coin>,
         index_amount: Uint128,
     ) -> Result<Vec<Coin>, ContractError> {
-        let required = self
-            .calc_require_amount(index_amount)
-            .into_iter()
-            .map(|v| coin(v.amount.max(Uint128::one()).u128(), v.denom))
-            .collect::<Vec<_>>();
+        let required = self.calc_deposit_amount(index_amount);
         let mut denoms: Vec<_> = funds.clone().into_iter().map(|v| Some(v.denom)).collect();
 
         for Coin { denom, amount } in required {
-- 
2.43.0


From 3912ea837fa86a635c148ca65e8ccaec1e1fb4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:34 +0000
Subject: [PATCH 02/11] fix: reject zero inflation weights

Distributing a trade over the inflation weights divides by the remaining
weight: with a trailing zero weight every trade fails, and the rebalance
can neither proceed nor be finalized.
---
 contracts/core/src/state/rebalance.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/core/src/state/rebalance.rs b/contracts/core/src/state/rebalance.rs
index b8a9df3..02ed425 100644
--- a/contracts/core/src/state/rebalance.rs
+++ b/contracts/core/src/state/rebalance.rs
@@ -27,6 +27,11 @@ impl Rebalance {
             return Err(ValidationError::invalid_rebalance("inflation", "empty").into());
         }
 
+        // check weights: a trade divides by them
+        if self.inflation.iter().any(|(_, weight)| weight.is_zero()) {
+            return Err(ValidationError::invalid_rebalance("inflation", "zero weight").into());
+        }
+
         // check duplication
         if self.deflation.check_duplicate() {
             return Err(ValidationError::invalid_rebalance("deflation", "duplicate denom").into());
-- 
2.43.0


From b5328c2d6264f2b0b8715f5b546de12a0db354e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:34 +0000
Subject: [PATCH 03/11] fix: let a rebalance finalize with untradable dust left

Trades move whole tokens, units have 18 decimals: after everything that can
be traded has been traded a remainder worth less than one token usually
stays in the units. Finalizing insisted on exact zero, so such a rebalance
could never end, and minting and burning stayed blocked.
---
 .../core/src/execute/rebalance/finalize.rs    | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/contracts/core/src/execute/rebalance/finalize.rs b/contracts/core/src/execute/rebalance/finalize.rs
index bf7e6aa..49050f3 100644
--- a/contracts/core/src/execute/rebalance/finalize.rs
+++ b/contracts/core/src/execute/rebalance/finalize.rs
@@ -1,12 +1,20 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, Storage};
+use cosmwasm_std::{attr, Decimal, DepsMut, Env, MessageInfo, Response, Storage, Uint128};
 
 use crate::{
     assert_sender,
     error::RebalanceError,
-    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS},
+    state::{FEE, INDEX_UNITS, REBALANCE, RESERVE_UNITS, TOTAL_SUPPLY},
     StdResult,
 };
 
+// a unit that is worth less than one token in total cannot be traded any further
+fn is_dust(unit: Decimal, total_supply: Option<Uint128>) -> bool {
+    match total_supply {
+        Some(total_supply) => (unit * total_supply).is_zero(),
+        None => unit.is_zero(),
+    }
+}
+
 fn unfreeze_streaming_fee(storage: &mut dyn Storage, now_in_sec: u64) -> StdResult<()> {
     let mut fee = FEE.load(storage)?;
     if let Some(streaming_fee) = fee.streaming_fee.as_mut() {
@@ -30,12 +38,13 @@ pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Respons
     }
 
     let index_units = INDEX_UNITS.load(deps.storage)?;
+    let total_supply = TOTAL_SUPPLY.may_load(deps.storage)?;
 
     // check deflation
     for (denom, target_unit) in rebalance.deflation {
         let (_, current_unit) = index_units.get_key(&denom).unwrap();
 
-        if &target_unit < current_unit {
+        if &target_unit < current_unit && !is_dust(*current_unit - target_unit, total_supply) {
             return Err(
                 RebalanceError::unable_to_finalize("deflation condition did not met").into(),
             );
@@ -44,7 +53,10 @@ pub fn finalize(deps: DepsMut, env: Env, info: MessageInfo) -> StdResult<Respons
 
     // check reserve unit has been flushed to inflation units
     let reserve_units = RESERVE_UNITS.load(deps.storage)?;
-    if !reserve_units.check_empty() {
+    if !reserve_units
+        .iter()
+        .all(|(_, unit)| is_dust(*unit, total_supply))
+    {
         return Err(RebalanceError::unable_to_finalize("inflation condition did not met").into());
     }
 
-- 
2.43.0


From 0db6f08000649046aecbd87c5c91b67b72eb5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 04/11] fix: pay out collected fees when the fee strategy
 changes

Updating the strategy reset the collected amounts, so the collector lost
what had been deducted from the index units but not realized yet.
---
 contracts/core/src/execute/gov/update.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/contracts/core/src/execute/gov/update.rs b/contracts/core/src/execute/gov/update.rs
index 82a4683..d833092 100644
--- a/contracts/core/src/execute/gov/update.rs
+++ b/contracts/core/src/execute/gov/update.rs
@@ -1,4 +1,4 @@
-use cosmwasm_std::{attr, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
+use cosmwasm_std::{attr, BankMsg, DepsMut, Env, MessageInfo, Response, StdError, Uint128};
 use ibcx_interface::{core::FeePayload, types::SwapRoutes};
 
 use crate::{
@@ -84,6 +84,15 @@ pub fn update_fee(
     // update
     let mut fee = FEE.load(deps.storage)?;
 
+    // pay out what has been collected under the previous strategy
+    let payout = fee
+        .streaming_fee
+        .filter(|v| !v.collected.is_empty())
+        .map(|v| BankMsg::Send {
+            to_address: fee.collector.to_string(),
+            amount: v.collected,
+        });
+
     fee.collector = deps.api.addr_validate(&new_fee.collector)?;
     fee.mint_fee = new_fee.mint_fee;
     fee.burn_fee = new_fee.burn_fee;
@@ -103,7 +112,9 @@ pub fn update_fee(
         attr("executor", info.sender),
     ];
 
-    let resp = Response::new().add_attributes(attrs);
+    let resp = Response::new()
+        .add_messages(payout)
+        .add_attributes(attrs);
 
     Ok(resp)
 }
-- 
2.43.0


From b3dc30aad236f931084fb2002b77cb336772beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 05/11] fix: keep the base factor in pow for exponents in [1,
 2)

The integer part 1 was treated like 0: pow(b, 1.5) returned b^0.5.
---
 packages/math/src/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/math/src/pow.rs b/packages/math/src/pow.rs
index 257a32e..7f9a890 100644
--- a/packages/math/src/pow.rs
+++ b/packages/math/src/pow.rs
@@ -43,7 +43,7 @@ pub fn pow(base: Decimal256, exp: Decimal256) -> Result<Decimal256, MathError> {
 }
 
 fn pow_int(mut base: Decimal256, power: Uint256) -> Decimal256 {
-    if power <= Uint256::one() {
+    if power.is_zero() {
         return Decimal256::one();
     }
 
-- 
2.43.0


From 65c34d0dd629f2422164b62dfbd6a72e1eed75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 06/11] fix: make the claim verification query agree with
 claiming

For a bearer airdrop the query proved the account instead of the claim hash,
so it rejected every valid claim. It panicked without an account, and
accepted claims that had been made already or exceed the funds left.
---
 contracts/airdrop/src/query/claim.rs | 34 +++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/contracts/airdrop/src/query/claim.rs b/contracts/airdrop/src/query/claim.rs
index b8b2841..455c0a6 100644
--- a/contracts/airdrop/src/query/claim.rs
+++ b/contracts/airdrop/src/query/claim.rs
@@ -9,7 +9,7 @@ use ibcx_interface::{
 
 use crate::{
     error::ContractError,
-    state::{load_airdrop, CLAIM_LOGS},
+    state::{assert_not_claimed, load_airdrop, CLAIM_LOGS},
     verify::{sha256_digest, verify_merkle_proof},
 };
 
@@ -77,18 +77,29 @@ pub fn verify_claim(
             account,
             merkle_proof: proof,
         } => {
-            let (_, airdrop) = load_airdrop(deps.storage, id)?;
+            let account = match account {
+                Some(account) => deps.api.addr_validate(&account)?,
+                None => return Ok(resp.fail("account is not specified")),
+            };
+            let (airdrop_id, airdrop) = load_airdrop(deps.storage, id)?;
 
             let airdrop = airdrop.unwrap_open()?;
             if airdrop.closed_at.is_some() {
                 return Ok(resp.fail("airdrop is closed"));
             }
+            if let Err(e) = assert_not_claimed(deps.storage, airdrop_id, account.as_str()) {
+                return Ok(resp.fail(e));
+            }
 
             let verify_result =
-                verify_merkle_proof(&airdrop.merkle_root, proof, &account.unwrap(), amount);
+                verify_merkle_proof(&airdrop.merkle_root, proof, account.as_str(), amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
+
+            if airdrop.total_claimed.checked_add(amount)? > airdrop.total_amount {
+                return Ok(resp.fail(ContractError::InsufficientAirdropFunds {}));
+            }
         }
 
         ClaimPayload::Bearer {
@@ -99,16 +110,23 @@ pub fn verify_claim(
             claim_sign,
             merkle_proof: proof,
         } => {
-            let account = account.unwrap();
-            let (_, airdrop) = load_airdrop(deps.storage, id)?;
+            let account = match account {
+                Some(account) => deps.api.addr_validate(&account)?,
+                None => return Ok(resp.fail("account is not specified")),
+            };
+            let (airdrop_id, airdrop) = load_airdrop(deps.storage, id)?;
 
             let airdrop = airdrop.unwrap_bearer()?;
             if airdrop.closed_at.is_some() {
                 return Ok(resp.fail("airdrop is closed"));
             }
+            if let Err(e) = assert_not_claimed(deps.storage, airdrop_id, &claim_hash) {
+                return Ok(resp.fail(e));
+            }
 
             // validate claim hash
-            let verify_result = verify_merkle_proof(&airdrop.merkle_root, proof, &account, amount);
+            let verify_result =
+                verify_merkle_proof(&airdrop.merkle_root, proof, &claim_hash, amount);
             if let Err(e) = verify_result {
                 return Ok(resp.fail(e));
             }
@@ -125,6 +143,10 @@ pub fn verify_claim(
             if !verify_result {
                 return Ok(resp.fail("invalid claim signature"));
             }
+
+            if airdrop.total_claimed.checked_add(amount)? > airdrop.total_amount {
+                return Ok(resp.fail(ContractError::InsufficientAirdropFunds {}));
+            }
         }
     }
 
-- 
2.43.0


From 46653323d2ed036f3cde1232abc637a70afe18a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 07/11] fix: register trade info under the last denom of its
 route

---
 packages/interface/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/interface/src/types.rs b/packages/interface/src/types.rs
index b4e4b76..2a28fec 100644
--- a/packages/interface/src/types.rs
+++ b/packages/interface/src/types.rs
@@ -69,11 +69,11 @@ impl From<SwapRoutes> for Vec<SwapAmountOutRoute> {
 
 impl SwapRoutes {
     pub fn dneom_first(&self) -> String {
-        self.0.last().unwrap().token_denom.clone()
+        self.0.first().unwrap().token_denom.clone()
     }
 
     pub fn denom_last(&self) -> String {
-        self.0.first().unwrap().token_denom.clone()
+        self.0.last().unwrap().token_denom.clone()
     }
 
     pub fn sim_swap_exact_in(
-- 
2.43.0


From 45bbc46c8a71bbd39b7567c4fef81d73ff1a9ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:55 +0000
Subject: [PATCH 08/11] fix: distribute a deflated unit without losing any of
 it

---
 contracts/core/src/execute/rebalance/trade/deflate.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/core/src/execute/rebalance/trade/deflate.rs b/contracts/core/src/execute/rebalance/trade/deflate.rs
index e4bdb22..b7aa403 100644
--- a/contracts/core/src/execute/rebalance/trade/deflate.rs
+++ b/contracts/core/src/execute/rebalance/trade/deflate.rs
@@ -25,7 +25,11 @@ fn inflate_reserve_unit(
     let mut expand_unit = inflate_unit;
     let mut total_weight = inflations.iter().map(|(_, v)| *v).sum::<Decimal>();
     for (denom, weight) in inflations {
-        let sub_unit = expand_unit * weight / total_weight;
+        let sub_unit = Decimal::new(
+            expand_unit
+                .atomics()
+                .checked_multiply_ratio(weight.atomics(), total_weight.atomics())?,
+        );
         reserve_units.add_key(&denom, sub_unit)?;
 
         expand_unit = expand_unit.checked_sub(sub_unit)?;
-- 
2.43.0


From 47ae0144c15f9d816fcb0e40d4439577141269c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 09/11] fix: deduct the mint fee when simulating a mint for an
 exact input

---
 contracts/periphery/src/query.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index fe90d57..f0ffcf4 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -31,9 +31,10 @@ pub fn simulate_mint_exact_amount_in(
 
     // apply mint fee
     let mint_amount =
-        (sim_res.est_min_token_out * expand_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
+        (sim_res.est_min_token_out * deduct_fee(core_fee.mint_fee)?) - Uint128::new(100); // FIXME: hacky calibration
 
-    let conv = make_unit_converter(mint_amount);
+    // the deposit is made for the amount before the fee
+    let conv = make_unit_converter(sim_res.est_min_token_out);
     let mut mint_spend_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0


From c1c97101961e61bce81bb9056caa4279f95d35f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 10/11] fix: simulate an exact mint for the amount that is
 minted

---
 contracts/periphery/src/query.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index f0ffcf4..8036e04 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -64,13 +64,14 @@ pub fn simulate_mint_exact_amount_out(
     // apply mint fee
     let mint_amount = index_amount * deduct_fee(core_fee.mint_fee)?;
 
-    let conv = make_unit_converter(mint_amount);
+    // the deposit is made for the amount before the fee
+    let conv = make_unit_converter(index_amount);
     let mut mint_spend_amount: Vec<_> =
         core_portfolio.units.clone().into_iter().map(conv).collect();
     mint_spend_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
     let sim = Simulator::new(&deps, &pools, &swap_info, &core_portfolio.units);
-    let sim_res = sim.estimate_input_for_index(&input_asset, mint_amount)?;
+    let sim_res = sim.estimate_input_for_index(&input_asset, index_amount)?;
 
     Ok(SimulateMintExactAmountOutResponse {
         mint_amount,
-- 
2.43.0


From 6de1e28341dda164e65db5e5821b185b40143c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:03 +0000
Subject: [PATCH 11/11] fix: deduct the burn fee from a simulated redemption

---
 contracts/periphery/src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/periphery/src/query.rs b/contracts/periphery/src/query.rs
index 8036e04..7bf7ea8 100644
--- a/contracts/periphery/src/query.rs
+++ b/contracts/periphery/src/query.rs
@@ -137,7 +137,8 @@ pub fn simulate_burn_exact_amount_out(
     // apply burn fee after simulation
     let burn_amount = sim_res.est_min_token_in * expand_fee(core_fee.burn_fee)?;
 
-    let conv = make_unit_converter(burn_amount);
+    // the redemption is made for the amount after the fee
+    let conv = make_unit_converter(burn_amount * deduct_fee(core_fee.burn_fee)?);
     let mut burn_redeem_amount: Vec<_> = core_portfolio.units.into_iter().map(conv).collect();
     burn_redeem_amount.sort_by(|a, b| a.denom.cmp(&b.denom));
 
-- 
2.43.0

