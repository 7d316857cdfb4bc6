From f705c08070fdfa7b199ca28e5b30e5722db83de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 01/10] fix: refuse zero when deserializing nonempty Uint256,
 Uint128 and Timestamp

---
 packages/axelar-wasm-std/src/nonempty/timestamp.rs | 8 ++++++++
 packages/axelar-wasm-std/src/nonempty/uint.rs      | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/packages/axelar-wasm-std/src/nonempty/timestamp.rs b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
index 2501f8c..7620328 100644
--- a/packages/axelar-wasm-std/src/nonempty/timestamp.rs
+++ b/packages/axelar-wasm-std/src/nonempty/timestamp.rs
@@ -2,6 +2,8 @@ use crate::nonempty::Error;
 use cosmwasm_schema::cw_serde;
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Timestamp")]
+#[serde(into = "cosmwasm_std::Timestamp")]
 pub struct Timestamp(cosmwasm_std::Timestamp);
 
 impl TryFrom<cosmwasm_std::Timestamp> for Timestamp {
@@ -16,6 +18,12 @@ impl TryFrom<cosmwasm_std::Timestamp> for Timestamp {
     }
 }
 
+impl From<Timestamp> for cosmwasm_std::Timestamp {
+    fn from(value: Timestamp) -> Self {
+        value.0
+    }
+}
+
 impl<'a> From<&'a Timestamp> for &'a cosmwasm_std::Timestamp {
     fn from(value: &'a Timestamp) -> Self {
         &value.0
diff --git a/packages/axelar-wasm-std/src/nonempty/uint.rs b/packages/axelar-wasm-std/src/nonempty/uint.rs
index 862c782..07320e0 100644
--- a/packages/axelar-wasm-std/src/nonempty/uint.rs
+++ b/packages/axelar-wasm-std/src/nonempty/uint.rs
@@ -49,6 +49,8 @@ impl fmt::Display for Uint64 {
 
 // TODO: consider using macro for these types
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint256")]
+#[serde(into = "cosmwasm_std::Uint256")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint256(cosmwasm_std::Uint256);
 
@@ -89,6 +91,8 @@ impl AsRef<cosmwasm_std::Uint256> for Uint256 {
 }
 
 #[cw_serde]
+#[serde(try_from = "cosmwasm_std::Uint128")]
+#[serde(into = "cosmwasm_std::Uint128")]
 #[derive(Copy, PartialOrd, Eq)]
 pub struct Uint128(cosmwasm_std::Uint128);
 
-- 
2.43.0


From ff95d17a0673b9f2f9962c44dc8f128ba4f4ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 02/10] fix: refuse to bond coins of other denominations along
 with the bond

---
 contracts/service-registry/src/contract.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 9fa129e..65fb0a6 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -205,14 +205,10 @@ pub mod execute {
             .may_load(deps.storage, &service_name)?
             .ok_or(ContractError::ServiceNotFound)?;
 
-        let bond = if !info.funds.is_empty() {
-            info.funds
-                .iter()
-                .find(|coin| coin.denom == service.bond_denom)
-                .ok_or(ContractError::WrongDenom)?
-                .amount
-        } else {
-            Uint128::zero() // sender can rebond currently unbonding funds by just sending no new funds
+        let bond = match info.funds.as_slice() {
+            [] => Uint128::zero(), // sender can rebond currently unbonding funds by just sending no new funds
+            [coin] if coin.denom == service.bond_denom => coin.amount,
+            _ => return Err(ContractError::WrongDenom),
         };
 
         WORKERS.update(
-- 
2.43.0


From 4b065aa89f418f5a333683a099878a1354c7b7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 03/10] fix: look up GetWorker by service and worker in the
 right order

---
 contracts/service-registry/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/service-registry/src/contract.rs b/contracts/service-registry/src/contract.rs
index 65fb0a6..779fe59 100644
--- a/contracts/service-registry/src/contract.rs
+++ b/contracts/service-registry/src/contract.rs
@@ -333,7 +333,7 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> Result<Binary, ContractErr
         QueryMsg::GetWorker {
             service_name,
             worker,
-        } => to_binary(&query::get_worker(deps, worker, service_name)?).map_err(|err| err.into()),
+        } => to_binary(&query::get_worker(deps, service_name, worker)?).map_err(|err| err.into()),
         QueryMsg::GetService { service_name } => {
             to_binary(&query::get_service(deps, service_name)?).map_err(|err| err.into())
         }
-- 
2.43.0


From 3b8835ad52e97e0075d5bf78da63c0281c38546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:27 +0000
Subject: [PATCH 04/10] fix: process no epoch when rewards are distributed for
 at most zero epochs

---
 contracts/rewards/src/contract/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/rewards/src/contract/execute.rs b/contracts/rewards/src/contract/execute.rs
index d89d0ed..87a26fe 100644
--- a/contracts/rewards/src/contract/execute.rs
+++ b/contracts/rewards/src/contract/execute.rs
@@ -134,7 +134,7 @@ where
             cur_epoch.epoch_num.saturating_sub(EPOCH_PAYOUT_DELAY),
         );
 
-        if to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
+        if epoch_process_limit == 0 || to < from || cur_epoch.epoch_num < EPOCH_PAYOUT_DELAY {
             return Err(ContractError::NoRewardsToDistribute.into());
         }
 
-- 
2.43.0


From d5b26033dfb589adb76e036f5ce35b15350c3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 05/10] fix: emit an unfrozen event when a chain is unfrozen

---
 contracts/connection-router/src/contract/execute.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/connection-router/src/contract/execute.rs b/contracts/connection-router/src/contract/execute.rs
index 25745f5..812b31b 100644
--- a/contracts/connection-router/src/contract/execute.rs
+++ b/contracts/connection-router/src/contract/execute.rs
@@ -6,7 +6,9 @@ use itertools::Itertools;
 
 use axelar_wasm_std::flagset::FlagSet;
 
-use crate::events::{ChainFrozen, ChainRegistered, GatewayInfo, GatewayUpgraded, MessageRouted};
+use crate::events::{
+    ChainFrozen, ChainRegistered, ChainUnfrozen, GatewayInfo, GatewayUpgraded, MessageRouted,
+};
 use crate::msg::ExecuteMsg;
 use crate::state::{
     chain_endpoints, ChainEndpoint, ChainName, Gateway, GatewayDirection, Message, Store, CONFIG,
@@ -100,7 +102,7 @@ pub fn unfreeze_chain(
             Ok(chain)
         }
     })?;
-    Ok(Response::new().add_event(ChainFrozen { name: chain }.into()))
+    Ok(Response::new().add_event(ChainUnfrozen { name: chain }.into()))
 }
 
 pub fn require_admin(deps: &DepsMut, info: MessageInfo) -> Result<(), ContractError> {
-- 
2.43.0


From 885725cd103d60dd97420867724a9a6ba2410559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 06/10] fix: send a message repeated within one batch to nexus
 only once

---
 .../nexus-gateway/src/contract/execute.rs     | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/contracts/nexus-gateway/src/contract/execute.rs b/contracts/nexus-gateway/src/contract/execute.rs
index c848d6e..c39c29d 100644
--- a/contracts/nexus-gateway/src/contract/execute.rs
+++ b/contracts/nexus-gateway/src/contract/execute.rs
@@ -47,21 +47,17 @@ where
             return Err(report!(ContractError::Unauthorized));
         }
 
-        let msgs = msgs
-            .into_iter()
-            .filter_map(|msg| match self.store.is_message_routed(&msg.cc_id) {
-                Ok(true) => None,
-                Ok(false) => Some(Ok(msg)),
-                Err(err) => Some(Err(err)),
-            })
-            .collect::<Result<Vec<_>>>()?;
-
-        msgs.iter()
-            .try_for_each(|msg| self.store.set_message_routed(&msg.cc_id))?;
-
-        let msgs: Vec<nexus::Message> = msgs.into_iter().map(Into::into).collect();
+        let mut new_msgs: Vec<nexus::Message> = vec![];
+        for msg in msgs {
+            // mark each message as routed before checking the next one, so that
+            // duplicates within the same batch are sent only once
+            if !self.store.is_message_routed(&msg.cc_id)? {
+                self.store.set_message_routed(&msg.cc_id)?;
+                new_msgs.push(msg.into());
+            }
+        }
 
-        Ok(Response::new().add_messages(msgs))
+        Ok(Response::new().add_messages(new_msgs))
     }
 }
 
-- 
2.43.0


From ad15cf8d1eac7b03b0006a094a08805a9efa4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 07/10] fix: decode the verifier's statuses when answering
 IsVerified

---
 contracts/aggregate-verifier/src/contract.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index 09b1b0a..f6d8e26 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -99,10 +99,12 @@ pub fn query(deps: Deps, _env: Env, msg: QueryMsg) -> StdResult<Binary> {
     match msg {
         QueryMsg::IsVerified { messages } => {
             let verifier = CONFIG.load(deps.storage)?.verifier;
-            deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
-                contract_addr: verifier.to_string(),
-                msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
-            }))
+            let statuses: Vec<(CrossChainId, bool)> =
+                deps.querier.query(&QueryRequest::Wasm(WasmQuery::Smart {
+                    contract_addr: verifier.to_string(),
+                    msg: to_binary(&voting_msg::QueryMsg::IsVerified { messages })?,
+                }))?;
+            to_binary(&statuses)
         }
     }
 }
-- 
2.43.0


From 7fb7e1996364ce4001542b94d828ff4eb5e4aae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 08/10] fix: accept the voting verifier's reply in the
 aggregate verifier

---
 contracts/aggregate-verifier/src/contract.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/contracts/aggregate-verifier/src/contract.rs b/contracts/aggregate-verifier/src/contract.rs
index f6d8e26..e3c6927 100644
--- a/contracts/aggregate-verifier/src/contract.rs
+++ b/contracts/aggregate-verifier/src/contract.rs
@@ -77,11 +77,15 @@ pub fn reply(
 ) -> Result<Response, axelar_wasm_std::ContractError> {
     match parse_reply_execute_data(reply) {
         Ok(MsgExecuteContractResponse { data: Some(data) }) => {
-            // check format of data
-            let _: Vec<(CrossChainId, bool)> = from_binary(&data)?;
+            // check format of data. The voting verifier wraps the statuses in its response type
+            let statuses: Vec<(CrossChainId, bool)> =
+                match from_binary::<voting_msg::VerifyMessagesResponse>(&data) {
+                    Ok(response) => response.verification_statuses,
+                    Err(_) => from_binary(&data)?,
+                };
 
-            // only one verifier, so just return the response as is
-            Ok(Response::new().set_data(data))
+            // only one verifier, so just return its statuses
+            Ok(Response::new().set_data(to_binary(&statuses)?))
         }
         Ok(MsgExecuteContractResponse { data: None }) => {
             Err(ContractError::InvalidVerifierReply("no data".to_string()))
-- 
2.43.0


From 1884a76f1eb34227f1a0360f9ae82be7100d975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 09/10] fix: never replace a stored command batch in
 multisig-prover

With a worker set rotation due, the same messages requested in another
order within one block yield the same batch id but other command data;
the batch an earlier session signed was overwritten.
---
 contracts/multisig-prover/src/execute.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/multisig-prover/src/execute.rs b/contracts/multisig-prover/src/execute.rs
index 3fe06fe..006a0bd 100644
--- a/contracts/multisig-prover/src/execute.rs
+++ b/contracts/multisig-prover/src/execute.rs
@@ -48,9 +48,14 @@ pub fn construct_proof(
             }
             let batch = builder.build()?;
 
-            COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
-
-            batch
+            // a batch must never change once its digest might have been sent for signing
+            match COMMANDS_BATCH.may_load(deps.storage, &batch.id)? {
+                Some(existing) => existing,
+                None => {
+                    COMMANDS_BATCH.save(deps.storage, &batch.id, &batch)?;
+                    batch
+                }
+            }
         }
     };
 
-- 
2.43.0


From c6adeee24fdf0ecac0991c480e6ed6e1ed3f293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 10/10] fix: make the multisig-prover batch id unambiguous in
 the message ids

Message ids may contain the comma they were joined with, so different
lists of messages could share a batch.
---
 contracts/multisig-prover/src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/multisig-prover/src/types.rs b/contracts/multisig-prover/src/types.rs
index 390ec18..2b0ae1c 100644
--- a/contracts/multisig-prover/src/types.rs
+++ b/contracts/multisig-prover/src/types.rs
@@ -74,6 +74,8 @@ impl BatchId {
         let mut message_ids = message_ids
             .iter()
             .map(|id| id.to_string())
+            // ids may contain the delimiter, so their length has to be part of the preimage
+            .map(|id| format!("{}:{}", id.len(), id))
             .collect::<Vec<_>>();
         message_ids.sort();
 
-- 
2.43.0

