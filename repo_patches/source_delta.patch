From 5dc081d6d963838cc82451572d0715e984aa578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 1/7] fix: approver answers a vetoed proposal with a rejection

---
 .../pre-propose/dao-pre-propose-approver/src/contract.rs      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
index 268d3ba..e2d306c 100644
--- a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
+++ b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
@@ -170,7 +170,7 @@ pub fn execute_proposal_completed(
 
     // On completion send rejection or approval message
     let msg = match new_status {
-        Status::Closed => Some(WasmMsg::Execute {
+        Status::Closed | Status::Vetoed => Some(WasmMsg::Execute {
             contract_addr: approval_contract.into_string(),
             msg: to_json_binary(&PreProposeApprovalExecuteMsg::Extension {
                 msg: ApprovalExt::Reject { id: pre_propose_id },
@@ -187,7 +187,7 @@ pub fn execute_proposal_completed(
         _ => None,
     };
 
-    // If Status is not Executed or Closed, throw error
+    // If Status is not Executed, Closed or Vetoed, throw error
     match msg {
         Some(msg) => Ok(Response::default()
             .add_message(msg)
-- 
2.43.0


From 1ffbe52225c26ea3e092ba9e1e80ff22f180ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 2/7] fix: fund distributor takes shares of the total power at
 the distribution height

---
 .../cw-fund-distributor/src/contract.rs           | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..aceddd0 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -47,7 +47,7 @@ pub fn instantiate(
     let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
         voting_contract.clone(),
         &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
+            height: Some(msg.distribution_height),
         },
     )?;
     // validate the total power and store it
@@ -564,6 +564,19 @@ fn execute_redistribute_unclaimed_funds(
     // update the distribution height
     DISTRIBUTION_HEIGHT.save(deps.storage, &distribution_height)?;
 
+    // shares are taken of the total power at the distribution height
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
+        voting_contract,
+        &voting::Query::TotalPowerAtHeight {
+            height: Some(distribution_height),
+        },
+    )?;
+    if total_power.power.is_zero() {
+        return Err(ContractError::ZeroVotingPower {});
+    }
+    TOTAL_POWER.save(deps.storage, &total_power.power)?;
+
     // get performed claims of cw20 and native tokens
     let performed_cw20_claims: Vec<Cw20ClaimEntry> = CW20_CLAIMS
         .range(deps.storage, None, None, Order::Descending)
-- 
2.43.0


From 9088f78f71bb84535aa1d69819e6a083c422c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 3/7] fix: cw-stake-tracker: count a validator by its stake at
 every later time

---
 packages/cw-stake-tracker/src/lib.rs | 59 ++++++++++++++++++----------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index b9c6339..a6fc0ae 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -58,16 +58,7 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        let old = self
-            .validators
-            .load(storage, validator.clone(), t.seconds())?
-            .unwrap_or_default();
-        if old.is_zero() && !amount.is_zero() {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        self.validators
-            .increment(storage, validator, t.seconds(), amount)?;
-        Ok(())
+        self.increment_validator(storage, t, validator, amount)
     }
 
     /// Makes note of a redelegation. Note, this only supports
@@ -83,17 +74,45 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        let new = self
-            .validators
-            .decrement(storage, src, t.seconds(), amount)?;
-        if new.is_zero() {
-            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
+        // the time from which `src` would have had no tokens, had the
+        // redelegation been known. `src` may have tokens unbonding at
+        // `t`, so this may be in the future.
+        let mut emptied = None;
+        self.validators
+            .update(storage, src, t.seconds(), &mut |staked, time| {
+                let new = staked - amount;
+                if new.is_zero() && !staked.is_zero() && emptied.is_none() {
+                    emptied = Some(time);
+                }
+                new
+            })?;
+        if let Some(time) = emptied {
+            self.cardinality.decrement(storage, (), time, 1)?;
         }
-        let new = self
-            .validators
-            .increment(storage, dst, t.seconds(), amount)?;
-        if new == amount {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
+        self.increment_validator(storage, t, dst, amount)
+    }
+
+    /// Adds tokens to `validator` at `t` and all later times, and
+    /// counts the validator from the time that it would have had no
+    /// tokens without them. Its tokens may all be unbonding at `t`,
+    /// so this may be in the future.
+    fn increment_validator(
+        &self,
+        storage: &mut dyn Storage,
+        t: Timestamp,
+        validator: String,
+        amount: Uint128,
+    ) -> StdResult<()> {
+        let mut empty = None;
+        self.validators
+            .update(storage, validator, t.seconds(), &mut |staked, time| {
+                if staked.is_zero() && !amount.is_zero() && empty.is_none() {
+                    empty = Some(time);
+                }
+                staked + amount
+            })?;
+        if let Some(time) = empty {
+            self.cardinality.increment(storage, (), time, 1)?;
         }
         Ok(())
     }
-- 
2.43.0


From 8dccfb1b132ee7567b2e61f27ee1bf88a4762a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:32 +0000
Subject: [PATCH 4/7] fix: tell cw721-roles hooks of a decrease of a token's
 weight

---
 contracts/external/cw721-roles/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..ed404c1 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -406,6 +406,8 @@ pub fn execute_update_token_weight(
 
                     // Subtract difference from the total
                     total = total.checked_sub(Uint64::from(weight_difference))?;
+                    // Set the diff for use in hooks
+                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
-- 
2.43.0


From 56e06707b07e1fa06bfa751cd014ff605586e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:32 +0000
Subject: [PATCH 5/7] fix: let cw721-roles burn a zero weight token of an
 account that is no longer a member

---
 contracts/external/cw721-roles/src/contract.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index ed404c1..141493a 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -177,10 +177,11 @@ pub fn execute_burn(
 
     // Update member weights and total
     let owner_addr = deps.api.addr_validate(&owner.owner)?;
-    let old_weight = MEMBERS.load(deps.storage, &owner_addr)?;
+    let old_weight = MEMBERS.may_load(deps.storage, &owner_addr)?;
 
     // Subtract the nft weight from the member's old weight
     let new_weight = old_weight
+        .unwrap_or_default()
         .checked_sub(nft_info.extension.weight)
         .ok_or(ContractError::CannotBurn {})?;
 
@@ -190,7 +191,7 @@ pub fn execute_burn(
     // Check if the new weight is now zero
     if new_weight == 0 {
         // New weight is now None
-        diff = MemberDiff::new(owner.owner, Some(old_weight), None);
+        diff = MemberDiff::new(owner.owner, old_weight, None);
         // Remove owner from list of members
         MEMBERS.remove(deps.storage, &owner_addr, env.block.height)?;
     } else {
-- 
2.43.0


From 0ec23cc3f41e6695a24093a07eb3f17c39087eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:42 +0000
Subject: [PATCH 6/7] fix: move the weight of a cw721-roles token with it when
 it is transferred or sent

---
 .../external/cw721-roles/src/contract.rs      | 73 +++++++++++++++++--
 1 file changed, 67 insertions(+), 6 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 141493a..934de2e 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -1,8 +1,8 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    from_json, to_json_binary, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order, Response,
-    StdResult, SubMsg, Uint64,
+    from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order,
+    Response, StdResult, SubMsg, Uint64,
 };
 use cw4::{
     Member, MemberChangedHookMsg, MemberDiff, MemberListResponse, MemberResponse,
@@ -230,8 +230,8 @@ pub fn execute_burn(
 }
 
 pub fn execute_transfer(
-    deps: DepsMut,
-    _env: Env,
+    mut deps: DepsMut,
+    env: Env,
     info: MessageInfo,
     recipient: String,
     token_id: String,
@@ -239,12 +239,22 @@ pub fn execute_transfer(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let old_owner = token.owner.clone();
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_weight(
+        deps.branch(),
+        &env,
+        &old_owner,
+        &token.owner,
+        token.extension.weight,
+    )?;
+
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_attribute("action", "transfer_nft")
         .add_attribute("sender", info.sender)
         .add_attribute("recipient", recipient)
@@ -252,8 +262,8 @@ pub fn execute_transfer(
 }
 
 pub fn execute_send(
-    deps: DepsMut,
-    _env: Env,
+    mut deps: DepsMut,
+    env: Env,
     info: MessageInfo,
     token_id: String,
     recipient_contract: String,
@@ -262,11 +272,20 @@ pub fn execute_send(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let old_owner = token.owner.clone();
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient_contract)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_weight(
+        deps.branch(),
+        &env,
+        &old_owner,
+        &token.owner,
+        token.extension.weight,
+    )?;
+
     let send = Cw721ReceiveMsg {
         sender: info.sender.to_string(),
         token_id: token_id.clone(),
@@ -274,6 +293,7 @@ pub fn execute_send(
     };
 
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_message(send.into_cosmos_msg(recipient_contract.clone())?)
         .add_attribute("action", "send_nft")
         .add_attribute("sender", info.sender)
@@ -281,6 +301,47 @@ pub fn execute_send(
         .add_attribute("token_id", token_id))
 }
 
+/// Moves the weight of a token that changes hands from its old owner to its
+/// new one, and prepares the hook messages that tell of it.
+fn move_weight(
+    deps: DepsMut,
+    env: &Env,
+    from: &Addr,
+    to: &Addr,
+    weight: u64,
+) -> Result<Vec<SubMsg>, ContractError> {
+    if from == to {
+        return Ok(vec![]);
+    }
+
+    let old_from = MEMBERS.may_load(deps.storage, from)?;
+    let new_from = old_from
+        .unwrap_or_default()
+        .checked_sub(weight)
+        .ok_or(ContractError::NegativeValue {})?;
+    let from_diff = if new_from == 0 {
+        MEMBERS.remove(deps.storage, from, env.block.height)?;
+        MemberDiff::new(from.clone(), old_from, None)
+    } else {
+        MEMBERS.save(deps.storage, from, &new_from, env.block.height)?;
+        MemberDiff::new(from.clone(), old_from, Some(new_from))
+    };
+
+    let old_to = MEMBERS.may_load(deps.storage, to)?;
+    let new_to = old_to.unwrap_or_default() + weight;
+    MEMBERS.save(deps.storage, to, &new_to, env.block.height)?;
+    let to_diff = MemberDiff::new(to.clone(), old_to, Some(new_to));
+
+    let diffs = MemberChangedHookMsg {
+        diffs: vec![from_diff, to_diff],
+    };
+
+    // Prepare hook messages
+    Ok(HOOKS.prepare_hooks(deps.storage, |h| {
+        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
+    })?)
+}
+
 pub fn execute_add_hook(
     deps: DepsMut,
     _info: MessageInfo,
-- 
2.43.0


From dd422d04963d116a825f56cad2b82df7d6f69974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 7/7] fix: have proposal and vote hooks run last first

Hooks that fail are removed by their index in the list of hooks. With two
of them failing in one call, the second index was stale: another hook was
removed, or the removal failed and with it the vote or proposal.
---
 packages/dao-hooks/src/proposal.rs | 10 ++++++++--
 packages/dao-hooks/src/vote.rs     |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/packages/dao-hooks/src/proposal.rs b/packages/dao-hooks/src/proposal.rs
index c98cfdc..6de4cb4 100644
--- a/packages/dao-hooks/src/proposal.rs
+++ b/packages/dao-hooks/src/proposal.rs
@@ -40,7 +40,7 @@ pub fn new_proposal_hooks(
     ))?;
 
     let mut index: u64 = 0;
-    let messages = hooks.prepare_hooks(storage, |a| {
+    let mut messages = hooks.prepare_hooks(storage, |a| {
         let execute = WasmMsg::Execute {
             contract_addr: a.to_string(),
             msg: msg.clone(),
@@ -52,6 +52,9 @@ pub fn new_proposal_hooks(
         Ok(tmp)
     })?;
 
+    // Failing hooks are removed by index. Have the last one run first
+    // so that a removal does not move the hooks that are yet to run.
+    messages.reverse();
     Ok(messages)
 }
 
@@ -77,7 +80,7 @@ pub fn proposal_status_changed_hooks(
         },
     ))?;
     let mut index: u64 = 0;
-    let messages = hooks.prepare_hooks(storage, |a| {
+    let mut messages = hooks.prepare_hooks(storage, |a| {
         let execute = WasmMsg::Execute {
             contract_addr: a.to_string(),
             msg: msg.clone(),
@@ -89,6 +92,9 @@ pub fn proposal_status_changed_hooks(
         Ok(tmp)
     })?;
 
+    // Failing hooks are removed by index. Have the last one run first
+    // so that a removal does not move the hooks that are yet to run.
+    messages.reverse();
     Ok(messages)
 }
 
diff --git a/packages/dao-hooks/src/vote.rs b/packages/dao-hooks/src/vote.rs
index 9d5dedf..1a7727d 100644
--- a/packages/dao-hooks/src/vote.rs
+++ b/packages/dao-hooks/src/vote.rs
@@ -29,7 +29,7 @@ pub fn new_vote_hooks(
         vote,
     }))?;
     let mut index: u64 = 0;
-    hooks.prepare_hooks(storage, |a| {
+    let mut messages = hooks.prepare_hooks(storage, |a| {
         let execute = WasmMsg::Execute {
             contract_addr: a.to_string(),
             msg: msg.clone(),
@@ -39,7 +39,12 @@ pub fn new_vote_hooks(
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
-    })
+    })?;
+
+    // Failing hooks are removed by index. Have the last one run first
+    // so that a removal does not move the hooks that are yet to run.
+    messages.reverse();
+    Ok(messages)
 }
 
 #[cw_serde]
-- 
2.43.0

