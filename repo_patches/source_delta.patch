From 889f65a5fea0ca21e606b9daa007c61deffb3bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 01/22] fix: pair_stable: accumulate TWAP prices with balances
 before the deposit

---
 contracts/pair_stable/src/contract.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 332edbc..f9e361f 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -388,6 +388,18 @@ pub fn provide_liquidity(
         }
     }
 
+    // Prices must be accumulated using pool balances as they were before this deposit
+    let pools = assets_collection
+        .iter()
+        .map(|(deposit, pool)| {
+            let precision = get_precision(deps.storage, &deposit.info)?;
+            Ok(DecimalAsset {
+                info: deposit.info.clone(),
+                amount: Decimal256::with_precision(*pool, precision)?,
+            })
+        })
+        .collect::<StdResult<Vec<_>>>()?;
+
     let total_share = query_native_supply(&deps.querier, &config.pair_info.liquidity_token)?;
 
     let auto_stake = auto_stake.unwrap_or(false);
@@ -425,17 +437,6 @@ pub fn provide_liquidity(
         auto_stake,
     )?);
 
-    let pools = pools
-        .into_iter()
-        .map(|(info, amount)| {
-            let precision = get_precision(deps.storage, &info)?;
-            Ok(DecimalAsset {
-                info,
-                amount: Decimal256::with_precision(amount, precision)?,
-            })
-        })
-        .collect::<StdResult<Vec<_>>>()?;
-
     if accumulate_prices(deps.storage, &env, &mut config, &pools)? {
         CONFIG.save(deps.storage, &config)?;
     }
-- 
2.43.0


From c346451deaa0da5e4ad58a938ae250eb7924b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 02/22] fix: a trade price beyond Decimal must not block
 further swaps (pair_stable, pair_concentrated)

---
 contracts/pair_concentrated/src/utils.rs | 5 ++++-
 contracts/pair_stable/src/utils.rs       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 4a64a15..6fefe03 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -63,7 +63,10 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
     }) = PrecommitObservation::may_load(storage)?
     {
         let mut buffer = BufferManager::new(storage, OBSERVATIONS)?;
-        let observed_price = Decimal::from_ratio(base_amount, quote_amount);
+        // A price which doesn't fit into Decimal can't be observed; it must not block swaps
+        let Ok(observed_price) = Decimal::checked_from_ratio(base_amount, quote_amount) else {
+            return Ok(());
+        };
 
         let new_observation;
         if let Some(last_obs) = buffer.read_last(storage)? {
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 71341e2..b5bb7d6 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -340,7 +340,10 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
     }) = PrecommitObservation::may_load(storage)?
     {
         let mut buffer = BufferManager::new(storage, OBSERVATIONS)?;
-        let observed_price = Decimal::from_ratio(base_amount, quote_amount);
+        // A price which doesn't fit into Decimal can't be observed; it must not block swaps
+        let Ok(observed_price) = Decimal::checked_from_ratio(base_amount, quote_amount) else {
+            return Ok(());
+        };
 
         let new_observation;
         if let Some(last_obs) = buffer.read_last(storage)? {
-- 
2.43.0


From b77b96bdf6925bdf3b2b8df21bf3b75c6112f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 03/22] fix: incentives: a removed reward's orphaned amount is
 paid out only once

---
 contracts/tokenomics/incentives/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..d2dda61 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -379,9 +379,10 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards leave the contract along with remaining ones thus they must not be accumulated once again
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From 239a234e0bef268dabb1a42b78102553021cda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 04/22] fix: incentives: rewards finished in one block no
 longer overwrite each other

---
 contracts/tokenomics/incentives/src/state.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d2dda61..27438e8 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -454,11 +454,16 @@ impl PoolInfo {
                         let finished_indexes = group
                             .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
                             .collect_vec();
-                        FINISHED_REWARD_INDEXES.save(
+                        // Other rewards could have been finished in the same block
+                        FINISHED_REWARD_INDEXES.update::<_, StdError>(
                             storage,
                             (lp_token, self.last_update_ts),
-                            &finished_indexes,
-                        )
+                            |indexes| {
+                                let mut indexes = indexes.unwrap_or_default();
+                                indexes.extend(finished_indexes);
+                                Ok(indexes)
+                            },
+                        )?;
                     } else {
                         // Processing finished schedules with orphaned rewards
                         for (reward, (_, orphaned_amount)) in group {
@@ -471,9 +476,9 @@ impl PoolInfo {
                                 },
                             )?;
                         }
-
-                        Ok(())
                     }
+
+                    Ok::<_, StdError>(())
                 })?;
         }
 
-- 
2.43.0


From ce98e3811a74a5419f84ed771575c76b01432d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 05/22] fix: incentives: external ASTRO must not lift the limit
 of reward tokens

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 27438e8..a71d5fb 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -280,7 +280,7 @@ impl PoolInfo {
 
         // Check that we don't exceed the maximum number of reward tokens per pool.
         // Allowing ASTRO reward to exceed this limit
-        if ext_rewards_len == MAX_REWARD_TOKENS as usize
+        if ext_rewards_len >= MAX_REWARD_TOKENS as usize
             && maybe_active_schedule.is_none()
             && schedule.reward_info.ne(astro_token)
         {
-- 
2.43.0


From b98f20b7226201e94eb6336f1c62eb6296f73a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 06/22] fix: incentives: blocking both tokens of a pool reduces
 total allocation points once

---
 contracts/tokenomics/incentives/src/execute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..a22a50c 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,10 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    // A pool may contain several tokens from the list
+                    if asset_infos.contains(token_to_block)
+                        && to_disable.iter().all(|(lp, _)| lp != lp_asset)
+                    {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From 7f5d61e9357ab75efd5ce329c87c30a6126f75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 07/22] fix: incentives: deregistering a pair deactivates its
 pool even when emissions are zero

---
 contracts/tokenomics/incentives/src/utils.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..a26c0e3 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -112,16 +112,17 @@ pub fn deactivate_pool(
 
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
-    match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
-            let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
-
-            let (ind, _) = active_pools
-                .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+    // A pool is active even while ASTRO emissions are zero
+    let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
+
+    match active_pools
+        .iter()
+        .position(|(lp_asset, _)| lp_asset == &lp_token_asset)
+    {
+        Some(ind) => {
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_token_asset)?;
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
             pool_info.disable_astro_rewards();
             pool_info.save(deps.storage, &lp_token_asset)?;
@@ -143,7 +144,7 @@ pub fn deactivate_pool(
                 attr("lp_token", lp_token),
             ]))
         }
-        _ => Ok(Response::new()),
+        None => Ok(Response::new()),
     }
 }
 
-- 
2.43.0


From da7f717048195c8d93531e8940d123faf5df6a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 08/22] fix: incentives: pool stakers query honours its page
 limit

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index a71d5fb..931fbff 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -502,7 +502,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0


From e2310e5938f6467fd78dfc2cf765cec154542703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 09/22] fix: quote the first stake as the staking contract
 mints it when ASTRO was donated before

---
 contracts/pair_xastro/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 853c57f..7ae5522 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -190,7 +190,7 @@ pub fn predict_stake(
 ) -> Result<Uint128, ContractError> {
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
-    if total_deposit.is_zero() {
+    if total_shares.is_zero() || total_deposit.is_zero() {
         if amount.saturating_sub(MINIMUM_STAKE_AMOUNT).is_zero() {
             return Err(ContractError::MinimumStakeAmountError {});
         }
-- 
2.43.0


From e324965f77d72b89301acffd2b421a58c3b1de23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 10/22] fix: xastro_token refuses duplicate initial balances,
 which left the supply above the sum of balances

---
 contracts/tokenomics/xastro_token/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/xastro_token/src/contract.rs b/contracts/tokenomics/xastro_token/src/contract.rs
index c49495e..82f5012 100644
--- a/contracts/tokenomics/xastro_token/src/contract.rs
+++ b/contracts/tokenomics/xastro_token/src/contract.rs
@@ -16,7 +16,7 @@ use astroport::xastro_token::{InstantiateMsg, MigrateMsg, QueryMsg};
 use cw2::{get_contract_version, set_contract_version};
 use cw20_base::contract::{
     execute_update_marketing, execute_upload_logo, query_download_logo, query_marketing_info,
-    query_minter, query_token_info,
+    query_minter, query_token_info, validate_accounts,
 };
 use cw20_base::enumerable::query_owner_allowances;
 use cw20_base::msg::ExecuteMsg;
@@ -108,6 +108,7 @@ pub fn instantiate(
 
     // Check valid token info
     msg.validate()?;
+    validate_accounts(&msg.initial_balances)?;
 
     // Create initial accounts
     let total_supply = create_accounts(&mut deps, &env, &msg.initial_balances)?;
-- 
2.43.0


From 2e6b7554c108b99cdd8fc21cec5db4e0d085711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 11/22] fix: transmuter reverse simulation compares the asked
 amount with the pool in the same units

---
 contracts/pair_transmuter/src/queries.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_transmuter/src/queries.rs b/contracts/pair_transmuter/src/queries.rs
index b07f8e8..5a6661b 100644
--- a/contracts/pair_transmuter/src/queries.rs
+++ b/contracts/pair_transmuter/src/queries.rs
@@ -118,10 +118,9 @@ pub fn reverse_swap(
         .find(|asset| asset.info == ask_asset.info)
         .ok_or_else(|| ContractError::InvalidAsset(ask_asset.info.to_string()))?;
 
-    let ask_asset = config.normalize(&ask_asset)?;
-
     if ask_pool.amount >= ask_asset.amount {
-        let offer_asset = offer_asset_info.with_balance(ask_asset.amount);
+        let normalized_ask = config.normalize(&ask_asset)?;
+        let offer_asset = offer_asset_info.with_balance(normalized_ask.amount);
         config.denormalize(&offer_asset).map(|asset| asset.amount)
     } else {
         Err(ContractError::InsufficientPoolBalance {
-- 
2.43.0


From fbea84848a77ece15481dfbe91e856977906b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 12/22] fix: PCL trades no longer panic when the profit per
 share is below one

---
 packages/astroport_pcl_common/src/state.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 95d67cd..dab18d4 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -356,9 +356,10 @@ impl PoolState {
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
         if norm >= scale_delta
-            && price_state.xcp_profit_real - Decimal256::one()
-                > (xcp_profit - Decimal256::one()) / TWO
-                    + Decimal256::from(pool_params.repeg_profit_threshold)
+            && TWO * price_state.xcp_profit_real
+                > xcp_profit
+                    + Decimal256::one()
+                    + TWO * Decimal256::from(pool_params.repeg_profit_threshold)
         {
             let numerator = price_state.price_scale * (norm - scale_delta)
                 + scale_delta * price_state.oracle_price;
-- 
2.43.0


From 2cb56f91511e9047fc0fd33055b1d0d366312322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 13/22] fix: PCL does not divide by zero when the oracle price
 is exactly at the price scale

---
 packages/astroport_pcl_common/src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index dab18d4..875d1e6 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -355,7 +355,8 @@ impl PoolState {
         let scale_delta = Decimal256::from(pool_params.min_price_scale_delta)
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
-        if norm >= scale_delta
+        if !norm.is_zero()
+            && norm >= scale_delta
             && TWO * price_state.xcp_profit_real
                 > xcp_profit
                     + Decimal256::one()
-- 
2.43.0


From ced0fe79f91d343ee331f9d4ed34b5172eba9d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 14/22] fix: AMP_MAX is exactly 100000

---
 packages/astroport_pcl_common/src/consts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/consts.rs b/packages/astroport_pcl_common/src/consts.rs
index 66cb56b..6c8b2e6 100644
--- a/packages/astroport_pcl_common/src/consts.rs
+++ b/packages/astroport_pcl_common/src/consts.rs
@@ -48,7 +48,7 @@ pub const MA_HALF_TIME_LIMITS: RangeInclusive<u64> = 1..=(7 * 86400);
 /// 0.1
 pub const AMP_MIN: Decimal = Decimal::raw(1e17 as u128);
 /// 100000
-pub const AMP_MAX: Decimal = Decimal::raw(1e23 as u128);
+pub const AMP_MAX: Decimal = Decimal::raw(100_000_000000000000000000);
 
 /// 0.00000001
 pub const GAMMA_MIN: Decimal = Decimal::raw(10000000000);
-- 
2.43.0


From 1823872a3303c522a073b59006f809b3fa7dfd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 15/22] fix: PCL withdrawals honour min_assets_to_receive

---
 contracts/pair_concentrated/src/contract.rs | 13 ++++++-
 contracts/pair_concentrated/src/error.rs    |  7 ++++
 contracts/pair_concentrated/src/utils.rs    | 41 +++++++++++++++++++++
 3 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 3d5dfb6..56a44e0 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -48,7 +48,8 @@ use astroport_pcl_common::{calc_d, get_xcp};
 use crate::error::ContractError;
 use crate::state::{BALANCES, CONFIG, OBSERVATIONS, OWNERSHIP_PROPOSAL};
 use crate::utils::{
-    accumulate_swap_sizes, calculate_shares, get_assets_with_precision, query_pools,
+    accumulate_swap_sizes, calculate_shares, ensure_min_assets_to_receive,
+    get_assets_with_precision, query_pools,
 };
 
 /// Contract name that is used for migration.
@@ -366,7 +367,10 @@ pub fn execute(
             })
             .map_err(Into::into)
         }
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -552,11 +556,14 @@ pub fn provide_liquidity(
 /// * **sender** address that will receive assets back from the pair contract
 ///
 /// * **assets** defines number of coins a user wants to withdraw per each asset.
+///
+/// * **min_assets_to_receive** is the least the user accepts of each asset.
 fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -610,6 +617,8 @@ fn withdraw_liquidity(
         })
         .collect::<StdResult<Vec<_>>>()?;
 
+    ensure_min_assets_to_receive(&config, refund_assets.clone(), min_assets_to_receive)?;
+
     messages.extend(
         refund_assets
             .iter()
diff --git a/contracts/pair_concentrated/src/error.rs b/contracts/pair_concentrated/src/error.rs
index b4e0cd5..fe5536b 100644
--- a/contracts/pair_concentrated/src/error.rs
+++ b/contracts/pair_concentrated/src/error.rs
@@ -70,6 +70,13 @@ pub enum ContractError {
     #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
     ProvideSlippageViolation(Uint128, Uint128),
 
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
     #[error("Operation is not supported")]
     NotSupported {},
 }
diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 6fefe03..b6c267e 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -255,6 +255,47 @@ pub(crate) fn calculate_shares(
     Ok((share.to_uint(LP_TOKEN_PRECISION)?, slippage))
 }
 
+/// Ensures that a withdrawal pays at least as much of each asset as the user asked for.
+pub(crate) fn ensure_min_assets_to_receive(
+    config: &Config,
+    mut refund_assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::InvalidNumberOfAssets(refund_assets.len()));
+        }
+
+        for asset in &min_assets_to_receive {
+            if !config.pair_info.asset_infos.contains(&asset.info) {
+                return Err(ContractError::InvalidAsset(asset.info.to_string()));
+            }
+        }
+
+        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
+            refund_assets.swap(0, 1)
+        }
+
+        if refund_assets[0].amount < min_assets_to_receive[0].amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[0].info.to_string(),
+                received: refund_assets[0].amount,
+                expected: min_assets_to_receive[0].amount,
+            });
+        }
+
+        if refund_assets[1].amount < min_assets_to_receive[1].amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[1].info.to_string(),
+                received: refund_assets[1].amount,
+                expected: min_assets_to_receive[1].amount,
+            });
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use std::fmt::Display;
-- 
2.43.0


From 7867e341aa34de15a9a873dab121bcaddab42109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 16/22] fix: sale tax pair honours min_lp_to_receive and
 min_assets_to_receive

---
 contracts/pair_xyk_sale_tax/src/contract.rs | 70 ++++++++++++++++++++-
 contracts/pair_xyk_sale_tax/src/error.rs    | 15 ++++-
 2 files changed, 82 insertions(+), 3 deletions(-)

diff --git a/contracts/pair_xyk_sale_tax/src/contract.rs b/contracts/pair_xyk_sale_tax/src/contract.rs
index 2e889d8..8b6f29c 100644
--- a/contracts/pair_xyk_sale_tax/src/contract.rs
+++ b/contracts/pair_xyk_sale_tax/src/contract.rs
@@ -229,7 +229,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
-            ..
+            min_lp_to_receive,
         } => provide_liquidity(
             deps,
             env,
@@ -238,6 +238,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
+            min_lp_to_receive,
         ),
         ExecuteMsg::Swap {
             offer_asset,
@@ -265,7 +266,10 @@ pub fn execute(
             )
         }
         ExecuteMsg::UpdateConfig { params } => update_config(deps, info, params),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NonSupported {}),
     }
 }
@@ -335,7 +339,10 @@ pub fn receive_cw20(
 /// * **receiver** is an optional parameter which defines the receiver of the LP tokens.
 /// If no custom receiver is specified, the pair will mint LP tokens for the function caller.
 ///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
+///
 /// NOTE - the address that wants to provide liquidity should approve the pair contract to pull its relevant tokens.
+#[allow(clippy::too_many_arguments)]
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
@@ -344,6 +351,7 @@ pub fn provide_liquidity(
     slippage_tolerance: Option<Decimal>,
     auto_stake: Option<bool>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -394,6 +402,15 @@ pub fn provide_liquidity(
         )?);
     }
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or(Uint128::zero());
+
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
+
     // Mint LP tokens for the sender or for the receiver (if set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
     messages.extend(mint_liquidity_token_message(
@@ -487,11 +504,14 @@ where
 /// * **sender** is the address that will receive assets back from the pair contract.
 ///
 /// * **amount** is the amount of LP tokens to burn.
+///
+/// * **min_assets_to_receive** is the least the user accepts of each asset.
 pub fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage).unwrap();
 
@@ -512,6 +532,8 @@ pub fn withdraw_liquidity(
         return Err(StdError::generic_err("Imbalanced withdraw is currently disabled").into());
     };
 
+    ensure_min_assets_to_receive(&config, refund_assets.clone(), min_assets_to_receive)?;
+
     if config.track_asset_balances {
         for (i, pool) in pools.iter().enumerate() {
             BALANCES.save(
@@ -1477,6 +1499,50 @@ pub fn pool_info(querier: QuerierWrapper, config: &Config) -> StdResult<(Vec<Ass
     Ok((pools, total_share))
 }
 
+/// Ensures that a withdrawal pays at least as much of each asset as the user asked for.
+fn ensure_min_assets_to_receive(
+    config: &Config,
+    mut refund_assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for asset in &min_assets_to_receive {
+            if !config.pair_info.asset_infos.contains(&asset.info) {
+                return Err(ContractError::AssetMismatch {});
+            }
+        }
+
+        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
+            refund_assets.swap(0, 1)
+        }
+
+        if refund_assets[0].amount < min_assets_to_receive[0].amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[0].info.to_string(),
+                received: refund_assets[0].amount,
+                expected: min_assets_to_receive[0].amount,
+            });
+        }
+
+        if refund_assets[1].amount < min_assets_to_receive[1].amount {
+            return Err(ContractError::WithdrawSlippageViolation {
+                asset_name: refund_assets[1].info.to_string(),
+                received: refund_assets[1].amount,
+                expected: min_assets_to_receive[1].amount,
+            });
+        }
+    }
+
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
     use cosmwasm_std::{Addr, Decimal, Uint128};
diff --git a/contracts/pair_xyk_sale_tax/src/error.rs b/contracts/pair_xyk_sale_tax/src/error.rs
index cfdb47e..30d230d 100644
--- a/contracts/pair_xyk_sale_tax/src/error.rs
+++ b/contracts/pair_xyk_sale_tax/src/error.rs
@@ -1,5 +1,5 @@
 use astroport::asset::MINIMUM_LIQUIDITY_AMOUNT;
-use cosmwasm_std::{OverflowError, StdError};
+use cosmwasm_std::{OverflowError, StdError, Uint128};
 use cw_utils::{ParseReplyError, PaymentError};
 use thiserror::Error;
 
@@ -36,6 +36,19 @@ pub enum ContractError {
     #[error("Operation exceeds max splippage tolerance")]
     MaxSlippageAssertion {},
 
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Received {received} {asset_name} but expected {expected}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Doubling assets in asset infos")]
     DoublingAssets {},
 
-- 
2.43.0


From 25f8454464f0f4b7ad267ba97116c84d4a350c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 17/22] fix: maker: dev fund receives only what its share was
 swapped for

---
 contracts/tokenomics/maker/src/contract.rs | 10 +++++++++-
 contracts/tokenomics/maker/src/reply.rs    |  6 ++++--
 contracts/tokenomics/maker/src/state.rs    |  4 ++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index 283fe45..89e82f1 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -22,7 +22,9 @@ use astroport::pair::MAX_ALLOWED_SLIPPAGE;
 use crate::error::ContractError;
 use crate::migration::migrate_from_v120_plus;
 use crate::reply::PROCESS_DEV_FUND_REPLY_ID;
-use crate::state::{BRIDGES, CONFIG, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG};
+use crate::state::{
+    BRIDGES, CONFIG, DEV_FUND_BALANCE, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG,
+};
 use crate::utils::{
     build_distribute_msg, build_send_msg, build_swap_msg, get_pool, try_build_swap_msg,
     update_second_receiver_cfg, validate_bridge, validate_cooldown, BRIDGES_EXECUTION_MAX_DEPTH,
@@ -649,6 +651,12 @@ fn distribute(
         let dev_share = amount * dev_fund_conf.share;
 
         if !dev_share.is_zero() {
+            // Remember the balance to tell swap proceeds from other funds in reply
+            let balance = dev_fund_conf
+                .asset_info
+                .query_pool(&deps.querier, &env.contract.address)?;
+            DEV_FUND_BALANCE.save(deps.storage, &balance)?;
+
             // Swap ASTRO and process result in reply
             let pool = get_pool(
                 &deps.querier,
diff --git a/contracts/tokenomics/maker/src/reply.rs b/contracts/tokenomics/maker/src/reply.rs
index 0391765..28630e2 100644
--- a/contracts/tokenomics/maker/src/reply.rs
+++ b/contracts/tokenomics/maker/src/reply.rs
@@ -1,4 +1,4 @@
-use crate::state::CONFIG;
+use crate::state::{CONFIG, DEV_FUND_BALANCE};
 use astroport::asset::AssetInfoExt;
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
@@ -13,9 +13,11 @@ pub fn reply(deps: DepsMut, env: Env, msg: Reply) -> StdResult<Response> {
             let config = CONFIG.load(deps.storage)?;
             let dev_fund_conf = config.dev_fund_conf.expect("Dev fund config must be set");
 
+            // The contract may hold dev fund asset which has nothing to do with the dev fund share
             let amount = dev_fund_conf
                 .asset_info
-                .query_pool(&deps.querier, env.contract.address)?;
+                .query_pool(&deps.querier, env.contract.address)?
+                .checked_sub(DEV_FUND_BALANCE.load(deps.storage)?)?;
             let dev_fee = dev_fund_conf.asset_info.with_balance(amount);
 
             Ok(Response::new()
diff --git a/contracts/tokenomics/maker/src/state.rs b/contracts/tokenomics/maker/src/state.rs
index 75eec72..1afeef4 100644
--- a/contracts/tokenomics/maker/src/state.rs
+++ b/contracts/tokenomics/maker/src/state.rs
@@ -1,6 +1,7 @@
 use astroport::asset::AssetInfo;
 use astroport::common::OwnershipProposal;
 use astroport::maker::{Config, SeizeConfig};
+use cosmwasm_std::Uint128;
 use cw_storage_plus::{Item, Map};
 
 /// Stores the contract configuration at the given key
@@ -15,3 +16,6 @@ pub const BRIDGES: Map<String, AssetInfo> = Map::new("bridges");
 pub const LAST_COLLECT_TS: Item<u64> = Item::new("last_collect_ts");
 /// Stores seize config
 pub const SEIZE_CONFIG: Item<SeizeConfig> = Item::new("seize_config");
+/// Stores the dev fund asset balance right before the dev fund share is swapped.
+/// Only what the swap added to it belongs to the dev fund.
+pub const DEV_FUND_BALANCE: Item<Uint128> = Item::new("dev_fund_balance");
-- 
2.43.0


From 10be8cabbe21bb52121ab2a0c0a4f200d7cac749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 18/22] fix: maker: refuse settings whose shares exceed the
 whole reward

---
 contracts/tokenomics/maker/src/contract.rs |  6 +++--
 contracts/tokenomics/maker/src/error.rs    |  3 +++
 contracts/tokenomics/maker/src/utils.rs    | 30 ++++++++++++++++++++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index 89e82f1..51db9f2 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -27,8 +27,8 @@ use crate::state::{
 };
 use crate::utils::{
     build_distribute_msg, build_send_msg, build_swap_msg, get_pool, try_build_swap_msg,
-    update_second_receiver_cfg, validate_bridge, validate_cooldown, BRIDGES_EXECUTION_MAX_DEPTH,
-    BRIDGES_INITIAL_DEPTH,
+    update_second_receiver_cfg, validate_bridge, validate_cooldown, validate_shares,
+    BRIDGES_EXECUTION_MAX_DEPTH, BRIDGES_INITIAL_DEPTH,
 };
 
 /// Contract name that is used for migration.
@@ -850,6 +850,8 @@ fn update_config(
         }
     }
 
+    validate_shares(&config)?;
+
     CONFIG.save(deps.storage, &config)?;
 
     Ok(Response::new().add_attributes(attributes))
diff --git a/contracts/tokenomics/maker/src/error.rs b/contracts/tokenomics/maker/src/error.rs
index 7b84c40..205fee2 100644
--- a/contracts/tokenomics/maker/src/error.rs
+++ b/contracts/tokenomics/maker/src/error.rs
@@ -32,6 +32,9 @@ pub enum ContractError {
     #[error("Governance percent must be 100% when staking contract is not set")]
     GovernancePercentMustBe100 {},
 
+    #[error("Shares of the second receiver, governance and dev fund exceed 100%")]
+    SharesExceedWhole {},
+
     #[error("Incorrect max spread")]
     IncorrectMaxSpread {},
 
diff --git a/contracts/tokenomics/maker/src/utils.rs b/contracts/tokenomics/maker/src/utils.rs
index 90fd4e7..544ab5f 100644
--- a/contracts/tokenomics/maker/src/utils.rs
+++ b/contracts/tokenomics/maker/src/utils.rs
@@ -272,3 +272,33 @@ pub fn validate_cooldown(maybe_cooldown: Option<u64>) -> Result<(), ContractErro
 
     Ok(())
 }
+
+/// Ensures that the shares of the second receiver, governance and dev fund do not exceed
+/// the whole reward, otherwise nothing could be distributed.
+pub fn validate_shares(config: &Config) -> Result<(), ContractError> {
+    let second_receiver_share = config
+        .second_receiver_cfg
+        .as_ref()
+        .map(|cfg| Decimal::from_ratio(cfg.second_receiver_cut, 100u8))
+        .unwrap_or_default();
+    // Governance gets its percent of what is left after the second receiver
+    let governance_share = config
+        .governance_contract
+        .as_ref()
+        .map(|_| {
+            (Decimal::one() - second_receiver_share)
+                * Decimal::from_ratio(config.governance_percent, 100u8)
+        })
+        .unwrap_or_default();
+    let dev_share = config
+        .dev_fund_conf
+        .as_ref()
+        .map(|cfg| cfg.share)
+        .unwrap_or_default();
+
+    if second_receiver_share + governance_share + dev_share > Decimal::one() {
+        return Err(ContractError::SharesExceedWhole {});
+    }
+
+    Ok(())
+}
-- 
2.43.0


From c8f83f254a7b28457bc5874fff9f429c4bc63303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 19/22] fix: stable, concentrated pairs: moving average drops
 the oldest observation, not the second oldest

---
 contracts/pair_concentrated/src/utils.rs | 4 ++--
 contracts/pair_stable/src/utils.rs       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index b6c267e..786b2ba 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -72,9 +72,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head, which is to be overwritten next, contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index b5bb7d6..0a1cb99 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -349,9 +349,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head, which is to be overwritten next, contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
-- 
2.43.0


From 6eab4277d799f8385608f0c46e4f890afdecf2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:20 +0000
Subject: [PATCH 20/22] fix: observations: moving average of tiny prices does
 not underflow

---
 packages/astroport/src/observation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/astroport/src/observation.rs b/packages/astroport/src/observation.rs
index 3498551..d1e97f6 100644
--- a/packages/astroport/src/observation.rs
+++ b/packages/astroport/src/observation.rs
@@ -209,9 +209,10 @@ pub fn safe_sma_calculation(
     new_price: Decimal,
 ) -> StdResult<Decimal> {
     let sma_times_count = price_sma.numerator().full_mul(count);
+    // Stored SMA is rounded down hence the sum restored from it may be less than the oldest price
     let res = Decimal256::from_ratio(
-        sma_times_count + Uint256::from(new_price.numerator())
-            - Uint256::from(oldest_price.numerator()),
+        (sma_times_count + Uint256::from(new_price.numerator()))
+            .saturating_sub(Uint256::from(oldest_price.numerator())),
         price_sma.denominator().full_mul(count),
     );
 
-- 
2.43.0


From bd5b15948f4f48c10dff62a2f1fe6866d1d2cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 21/22] fix: a concentrated pool's mid fee alone could be
 raised to or above its out fee

---
 packages/astroport_pcl_common/src/state.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 875d1e6..12ce8a6 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -92,6 +92,13 @@ impl PoolParams {
         let mut attributes = vec![];
         if let Some(mid_fee) = update_params.mid_fee {
             validate_param("mid_fee", mid_fee, MIN_FEE, MAX_FEE)?;
+            let out_fee = update_params.out_fee.unwrap_or(self.out_fee);
+            if out_fee <= mid_fee {
+                return Err(StdError::generic_err(format!(
+                    "out_fee {out_fee} must be more than mid_fee {mid_fee}"
+                ))
+                .into());
+            }
             self.mid_fee = mid_fee;
             attributes.push(attr("mid_fee", mid_fee.to_string()));
         }
-- 
2.43.0


From c6e1e117e082b20457df3a1b4b58b21fe6720347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 22/22] fix: incentives: claiming a finished reward panicked
 when an older schedule of the same reward left the staker a bigger index

---
 contracts/tokenomics/incentives/src/state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 931fbff..b117fc9 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -665,7 +665,13 @@ impl UserInfo {
                                 })
                                 .unwrap_or_default();
 
-                            (finished_index - user_reward_index) * lp_tokens_amount
+                            // A bigger user index was left by an older schedule of the same reward,
+                            // thus the user never claimed from this one
+                            if user_reward_index > finished_index {
+                                finished_index * lp_tokens_amount
+                            } else {
+                                (finished_index - user_reward_index) * lp_tokens_amount
+                            }
                         } else {
                             // Subsequent finished schedules consider user never claimed rewards
                             // thus their index was 0
-- 
2.43.0

