From a6af4c91a9b47264f0464bef2df3326a7b816895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 01/28] fix: reject warp transfers whose recipient is not 32
 bytes long

The transfer payload is recipient (32) | amount (32) | metadata without any
length prefix, so a recipient of any other length shifted the encoded amount:
a 64 bytes long recipient let the sender forge the amount released on the
destination chain, and a shorter one lost the funds.
---
 contracts/warp/cw20/src/contract.rs   | 3 +++
 contracts/warp/native/src/contract.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 503b2a2..3294591 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -196,6 +196,9 @@ fn transfer_remote(
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
 
+    // the payload has a fixed 32 bytes slot for the recipient
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength {});
+
     let dest_router = get_route::<HexBinary>(deps.storage, dest_domain)?
         .route
         .expect("route not found");
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index ef6c234..3d838e6 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -209,6 +209,9 @@ fn transfer_remote(
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
 
+    // the payload has a fixed 32 bytes slot for the recipient
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength);
+
     let mut funds = info.funds.clone();
 
     let (token_index, token_received) = funds
-- 
2.43.0


From 2e9691d97e3b30bbc6bd71e360c97db8f9843e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 02/28] fix: route verify info queries of the routing ism to
 the routed ism

The inner query was sent without the ism envelope and its answer decoded as a
verify response, so the query failed for every configured route.
---
 contracts/isms/routing/src/contract.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/isms/routing/src/contract.rs b/contracts/isms/routing/src/contract.rs
index bba8f9a..e0b4d41 100644
--- a/contracts/isms/routing/src/contract.rs
+++ b/contracts/isms/routing/src/contract.rs
@@ -7,7 +7,7 @@ use cw2::set_contract_version;
 use hpl_interface::{
     ism::{
         routing::{ExecuteMsg, InstantiateMsg, QueryMsg, RouteResponse, RoutingIsmQueryMsg},
-        IsmQueryMsg, ModuleTypeResponse, VerifyResponse,
+        IsmQueryMsg, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse,
     },
     types::Message,
 };
@@ -129,11 +129,11 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<QueryResponse, Contr
                     .may_load(deps.storage, decoded.origin_domain)?
                     .ok_or(ContractError::RouteNotFound {})?;
 
-                let verify_resp: VerifyResponse = deps
+                let verify_info_resp: VerifyInfoResponse = deps
                     .querier
-                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message })?;
+                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message }.wrap())?;
 
-                Ok(to_json_binary(&verify_resp)?)
+                Ok(to_json_binary(&verify_info_resp)?)
             }
         },
         QueryMsg::RoutingIsm(msg) => match msg {
-- 
2.43.0


From bf669f34e13cbf1bbc4858bad88a00a2365fc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 03/28] fix: check the aggregate ism threshold on instantiation
 too

Only the setter rejected a zero (or unreachable) threshold. Instantiated with
threshold zero the ism verified any message, or aborted with an underflow.
---
 contracts/isms/aggregate/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 0d39848..25f4102 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -33,6 +33,19 @@ fn new_event(name: &str) -> Event {
     Event::new(format!("hpl_ism_aggregate::{}", name))
 }
 
+fn check_threshold(threshold: u8, ism_count: usize) -> Result<(), ContractError> {
+    ensure!(
+        threshold > 0,
+        ContractError::InvalidThreshold("threshold must not be zero".to_string())
+    );
+    ensure!(
+        ism_count >= threshold as usize,
+        ContractError::InvalidThreshold("threshold should be less than ism count".to_string())
+    );
+
+    Ok(())
+}
+
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn instantiate(
     deps: DepsMut,
@@ -42,6 +55,8 @@ pub fn instantiate(
 ) -> Result<Response, ContractError> {
     set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
 
+    check_threshold(msg.threshold, msg.isms.len())?;
+
     let owner = deps.api.addr_validate(&msg.owner)?;
     let isms = msg
         .isms
@@ -78,16 +93,7 @@ pub fn execute(
                 info.sender,
                 ContractError::Unauthorized
             );
-            ensure!(
-                threshold > 0,
-                ContractError::InvalidThreshold("threshold must not be zero".to_string())
-            );
-            ensure!(
-                isms.len() >= threshold as usize,
-                ContractError::InvalidThreshold(
-                    "threshold should be less than ism count".to_string()
-                )
-            );
+            check_threshold(threshold, isms.len())?;
 
             let parsed_isms = isms
                 .iter()
-- 
2.43.0


From 6555c1a821a4061673e20d4fce55bc70d5fc00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 04/28] fix: forward the attached funds in the routing hooks

The routing hooks quote what the routed hook charges but called it without
any funds, so a fee charging hook behind them could never be paid and the
payment stayed in the routing hook.
---
 contracts/hooks/routing-custom/src/lib.rs   | 4 ++--
 contracts/hooks/routing-fallback/src/lib.rs | 4 ++--
 contracts/hooks/routing/src/lib.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/hooks/routing-custom/src/lib.rs b/contracts/hooks/routing-custom/src/lib.rs
index 1a355a7..32aecd4 100644
--- a/contracts/hooks/routing-custom/src/lib.rs
+++ b/contracts/hooks/routing-custom/src/lib.rs
@@ -284,12 +284,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 97ef08f..9e2cc2c 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -126,12 +126,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 pub fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing/src/lib.rs b/contracts/hooks/routing/src/lib.rs
index 341c90c..b485cc9 100644
--- a/contracts/hooks/routing/src/lib.rs
+++ b/contracts/hooks/routing/src/lib.rs
@@ -123,12 +123,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
-- 
2.43.0


From 32819c2131a59a9e2ead0ec957c871d50d3b2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 05/28] fix: accept an igp payment of nothing when nothing is
 quoted

The quote is empty if the needed gas cost rounds down to zero, but paying it
failed because a non-empty payment was always required.
---
 contracts/igps/core/src/execute.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/igps/core/src/execute.rs b/contracts/igps/core/src/execute.rs
index 1578ab7..db34dee 100644
--- a/contracts/igps/core/src/execute.rs
+++ b/contracts/igps/core/src/execute.rs
@@ -149,8 +149,14 @@ pub fn pay_for_gas(
     refund_address: String,
 ) -> Result<Response, ContractError> {
     let gas_token = GAS_TOKEN.load(deps.storage)?;
-    let received = Uint256::from(cw_utils::must_pay(&info, &gas_token)?);
     let gas_needed = quote_gas_price(deps.storage, &deps.querier, dest_domain, gas_amount)?;
+
+    // nothing is quoted if no gas is needed, so the payment is optional then
+    let received = Uint256::from(if gas_needed.is_zero() {
+        cw_utils::may_pay(&info, &gas_token)?
+    } else {
+        cw_utils::must_pay(&info, &gas_token)?
+    });
     ensure!(
         received >= gas_needed,
         ContractError::InsufficientFunds {
-- 
2.43.0


From 920d9f176f91d53ce57d7db2c17a03c043fd5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 06/28] fix: let a fee hook with a zero fee be dispatched
 through

A zero fee was quoted as a zero coin, which can't be attached or subtracted
from funds lacking that denom, and a payment was still required: setting the
fee to zero made every dispatch fail.
---
 contracts/hooks/fee/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/contracts/hooks/fee/src/lib.rs b/contracts/hooks/fee/src/lib.rs
index be2de06..3fe2b8d 100644
--- a/contracts/hooks/fee/src/lib.rs
+++ b/contracts/hooks/fee/src/lib.rs
@@ -113,7 +113,11 @@ pub fn execute(
         },
         ExecuteMsg::PostDispatch(_) => {
             let fee = COIN_FEE.load(deps.storage)?;
-            let supplied = cw_utils::must_pay(&info, &fee.denom)?;
+            let supplied = if fee.amount.is_zero() {
+                cw_utils::may_pay(&info, &fee.denom)?
+            } else {
+                cw_utils::must_pay(&info, &fee.denom)?
+            };
 
             ensure!(
                 supplied.u128() >= fee.amount.u128(),
@@ -150,7 +154,13 @@ fn get_mailbox(_deps: Deps) -> Result<MailboxResponse, ContractError> {
 
 fn quote_dispatch(deps: Deps) -> Result<QuoteDispatchResponse, ContractError> {
     let fee = COIN_FEE.load(deps.storage)?;
-    Ok(QuoteDispatchResponse { fees: vec![fee] })
+    let fees = if fee.amount.is_zero() {
+        vec![]
+    } else {
+        vec![fee]
+    };
+
+    Ok(QuoteDispatchResponse { fees })
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-- 
2.43.0


From 5f961fe5ad5206ca1cd7eb94127862a4b3d6c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 07/28] fix: do not abort on igp refund addresses with leading
 zeroes

A refund address starting with 16 zero bytes was cut to 16 (or 4) bytes, which
is no valid address length, and unwrapping the encoding error panicked.
---
 packages/interface/src/types/metadata.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 15b56ab..7cc395f 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -250,18 +250,8 @@ impl IGPMetadata {
             return default;
         }
 
-        let raw_addr = match self
-            .refund_address
-            .to_vec()
-            .iter()
-            .take(16)
-            .all(|&byte| byte == 0)
-        {
-            true => self.refund_address.to_vec()[16..].to_vec(),
-            false => self.refund_address.to_vec(),
-        };
-
-        bech32_encode(hrp, &raw_addr).unwrap()
+        // the encoder strips the padding of 20 bytes long addresses
+        bech32_encode(hrp, &self.refund_address).unwrap()
     }
 }
 
-- 
2.43.0


From 3286f631635d71fb31bc6338664e01555d71aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 08/28] fix: reject a zero exchange rate in the single gas data
 setter too

Only the batch setter rejected it. A zero exchange rate makes gas for the
domain free.
---
 contracts/igps/oracle/src/contract.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/igps/oracle/src/contract.rs b/contracts/igps/oracle/src/contract.rs
index 464a76f..e20f2f9 100644
--- a/contracts/igps/oracle/src/contract.rs
+++ b/contracts/igps/oracle/src/contract.rs
@@ -72,6 +72,10 @@ pub fn execute(
                 get_owner(deps.storage)?,
                 ContractError::Unauthorized {}
             );
+            ensure!(
+                !config.token_exchange_rate.is_zero(),
+                ContractError::invalid_config("exchange rate must be non-zero")
+            );
 
             let domain = config.remote_domain.to_string();
             insert_gas_data(deps.storage, config)?;
-- 
2.43.0


From c8ed0f005082c4c086b07b465ae74b5373243468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 09/28] fix: make the mailbox set through the connection of a
 warp route effective

SetMailbox stored the new mailbox and GetMailbox reported it, but the route
kept trusting and dispatching through the one given on instantiation.
---
 contracts/warp/cw20/src/contract.rs   | 17 +++++++++++++----
 contracts/warp/native/src/contract.rs | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 3294591..557dbdf 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -1,8 +1,9 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
-    MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256, WasmMsg,
+    ensure_eq, to_json_binary, wasm_execute, Addr, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
+    MessageInfo, QueryResponse, Reply, Response, StdError, StdResult, Storage, SubMsg, Uint128,
+    Uint256, WasmMsg,
 };
 
 use cw20::Cw20ExecuteMsg;
@@ -139,6 +140,14 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
     }
 }
 
+// the mailbox set through the connection takes over the one given on instantiation
+fn get_mailbox(storage: &dyn Storage) -> StdResult<Addr> {
+    match hpl_connection::get_mailbox(storage)? {
+        Some(mailbox) => Ok(mailbox),
+        None => MAILBOX.load(storage),
+    }
+}
+
 fn mailbox_handle(
     deps: DepsMut,
     info: MessageInfo,
@@ -147,7 +156,7 @@ fn mailbox_handle(
     // validate mailbox
     ensure_eq!(
         info.sender,
-        MAILBOX.load(deps.storage)?,
+        get_mailbox(deps.storage)?,
         ContractError::Unauthorized
     );
     // validate origin chain router
@@ -194,7 +203,7 @@ fn transfer_remote(
 ) -> Result<Response, ContractError> {
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
-    let mailbox = MAILBOX.load(deps.storage)?;
+    let mailbox = get_mailbox(deps.storage)?;
 
     // the payload has a fixed 32 bytes slot for the recipient
     ensure_eq!(recipient.len(), 32, ContractError::WrongLength {});
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index 3d838e6..a47fd51 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -1,8 +1,9 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    ensure, ensure_eq, to_json_binary, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
-    MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256,
+    ensure, ensure_eq, to_json_binary, Addr, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
+    MessageInfo, QueryResponse, Reply, Response, StdError, StdResult, Storage, SubMsg, Uint128,
+    Uint256,
 };
 use hpl_connection::{get_hook, get_ism};
 use hpl_interface::{
@@ -143,6 +144,14 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
     }
 }
 
+// the mailbox set through the connection takes over the one given on instantiation
+fn get_mailbox(storage: &dyn Storage) -> StdResult<Addr> {
+    match hpl_connection::get_mailbox(storage)? {
+        Some(mailbox) => Ok(mailbox),
+        None => MAILBOX.load(storage),
+    }
+}
+
 fn mailbox_handle(
     deps: DepsMut,
     env: Env,
@@ -152,7 +161,7 @@ fn mailbox_handle(
     // validate mailbox
     ensure_eq!(
         info.sender,
-        MAILBOX.load(deps.storage)?,
+        get_mailbox(deps.storage)?,
         ContractError::Unauthorized
     );
     // validate message origin - this should be registered route
@@ -207,7 +216,7 @@ fn transfer_remote(
 ) -> Result<Response, ContractError> {
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
-    let mailbox = MAILBOX.load(deps.storage)?;
+    let mailbox = get_mailbox(deps.storage)?;
 
     // the payload has a fixed 32 bytes slot for the recipient
     ensure_eq!(recipient.len(), 32, ContractError::WrongLength);
-- 
2.43.0


From 21ec53ddbe7a18cd0e3f951a542138458e7c81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 10/28] fix: route through the fallback routing hook before a
 fallback is set

---
 contracts/hooks/routing-fallback/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 9e2cc2c..879de58 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -116,10 +116,11 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
     let decoded_msg: Message = message.clone().into();
     let dest_domain = decoded_msg.dest_domain;
 
-    let fallback_hook = FALLBACK_HOOK.load(storage)?;
-
     let routed_hook_set = hpl_router::get_route::<Addr>(storage, dest_domain)?;
-    let routed_hook = routed_hook_set.route.unwrap_or(fallback_hook);
+    let routed_hook = match routed_hook_set.route {
+        Some(hook) => hook,
+        None => FALLBACK_HOOK.load(storage)?,
+    };
 
     Ok((decoded_msg, routed_hook))
 }
-- 
2.43.0


From 7da1b833dddceff97724f5b4e9eab7498e7fb190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 11/28] fix: ask a recipient's own ism even if no default ism
 is set

---
 contracts/core/mailbox/src/execute.rs | 3 ++-
 contracts/core/mailbox/src/query.rs   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/core/mailbox/src/execute.rs b/contracts/core/mailbox/src/execute.rs
index 6d1d7cb..40b1198 100644
--- a/contracts/core/mailbox/src/execute.rs
+++ b/contracts/core/mailbox/src/execute.rs
@@ -181,7 +181,8 @@ pub fn process(
     );
 
     let id = decoded_msg.id();
-    let ism = ism::recipient(&deps.querier, &recipient)?.unwrap_or(config.get_default_ism());
+    let ism = ism::recipient(&deps.querier, &recipient)?
+        .unwrap_or_else(|| config.get_default_ism());
 
     ensure!(
         !DELIVERIES.has(deps.storage, id.to_vec()),
diff --git a/contracts/core/mailbox/src/query.rs b/contracts/core/mailbox/src/query.rs
index e2e0a15..fdacf66 100644
--- a/contracts/core/mailbox/src/query.rs
+++ b/contracts/core/mailbox/src/query.rs
@@ -68,11 +68,11 @@ pub fn get_recipient_ism(
     deps: Deps,
     recipient: String,
 ) -> Result<RecipientIsmResponse, ContractError> {
-    let default_ism = CONFIG.load(deps.storage)?.get_default_ism();
+    let config = CONFIG.load(deps.storage)?;
 
     let recipient = deps.api.addr_validate(&recipient)?;
 
-    let ism = ism::recipient(&deps.querier, recipient)?.unwrap_or(default_ism);
+    let ism = ism::recipient(&deps.querier, recipient)?.unwrap_or_else(|| config.get_default_ism());
 
     Ok(RecipientIsmResponse { ism: ism.into() })
 }
-- 
2.43.0


From c3632ad353a3eb0b9851a3269cec7ff3573d364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:56 +0000
Subject: [PATCH 12/28] fix: answer the domains query after a route was cleared

---
 packages/router/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/router/src/lib.rs b/packages/router/src/lib.rs
index b11de61..cda2bff 100644
--- a/packages/router/src/lib.rs
+++ b/packages/router/src/lib.rs
@@ -144,7 +144,8 @@ pub fn get_domains<T>(storage: &dyn Storage) -> StdResult<Vec<u32>>
 where
     T: Serialize + DeserializeOwned + Clone + Eq,
 {
-    get_route_map::<T>()
+    // cleared routes are stored without a value
+    get_route_map::<Option<T>>()
         .keys(storage, None, None, Order::Asc.into())
         .collect()
 }
-- 
2.43.0


From c05a7fdc70b718d19354da094f072032e17a8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 13/28] fix: omit absent hook and metadata from transfer events

---
 contracts/warp/cw20/src/contract.rs   | 25 +++++++++++++++----------
 contracts/warp/native/src/contract.rs | 23 ++++++++++++++---------
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 557dbdf..e1190cc 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -254,16 +254,21 @@ fn transfer_remote(
         info.funds,
     )?);
 
-    Ok(Response::new().add_messages(msgs).add_event(
-        new_event("transfer-remote")
-            .add_attribute("sender", info.sender)
-            .add_attribute("dest_domain", dest_domain.to_string())
-            .add_attribute("recipient", recipient.to_hex())
-            .add_attribute("token", token)
-            .add_attribute("amount", transfer_amount)
-            .add_attribute("hook", hook.unwrap_or_default())
-            .add_attribute("metadata", metadata.unwrap_or_default().to_string()),
-    ))
+    let mut event = new_event("transfer-remote")
+        .add_attribute("sender", info.sender)
+        .add_attribute("dest_domain", dest_domain.to_string())
+        .add_attribute("recipient", recipient.to_hex())
+        .add_attribute("token", token)
+        .add_attribute("amount", transfer_amount);
+    // chains may reject events with empty attribute values
+    if let Some(hook) = hook {
+        event = event.add_attribute("hook", hook);
+    }
+    if let Some(metadata) = metadata.filter(|v| !v.is_empty()) {
+        event = event.add_attribute("metadata", metadata.to_string());
+    }
+
+    Ok(Response::new().add_messages(msgs).add_event(event))
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index a47fd51..09ac178 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -268,15 +268,20 @@ fn transfer_remote(
         funds,
     )?);
 
-    Ok(Response::new().add_messages(msgs).add_event(
-        new_event("transfer-remote")
-            .add_attribute("sender", info.sender)
-            .add_attribute("recipient", recipient.to_hex())
-            .add_attribute("token", token)
-            .add_attribute("amount", transfer_amount.to_string())
-            .add_attribute("hook", hook.unwrap_or_default())
-            .add_attribute("metadata", metadata.unwrap_or_default().to_string()),
-    ))
+    let mut event = new_event("transfer-remote")
+        .add_attribute("sender", info.sender)
+        .add_attribute("recipient", recipient.to_hex())
+        .add_attribute("token", token)
+        .add_attribute("amount", transfer_amount.to_string());
+    // chains may reject events with empty attribute values
+    if let Some(hook) = hook {
+        event = event.add_attribute("hook", hook);
+    }
+    if let Some(metadata) = metadata.filter(|v| !v.is_empty()) {
+        event = event.add_attribute("metadata", metadata.to_string());
+    }
+
+    Ok(Response::new().add_messages(msgs).add_event(event))
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-- 
2.43.0


From cfeeb88cda481dfd68d0f4a1b79d0256be234311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 14/28] fix: leave out aggregate modules without metadata

A range that starts at zero means that there is no metadata for the module.
Relayers send such ranges for the modules beyond the threshold, but the
module was asked with empty metadata, which multisig modules refuse by
failing, so that the whole verification failed.
---
 packages/interface/src/types/metadata.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 7cc395f..af14318 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -158,7 +158,7 @@ impl AggregateMetadata {
             addrs
                 .into_iter()
                 .enumerate()
-                .map(|(i, ism)| {
+                .filter_map(|(i, ism)| {
                     let start = i * Self::RANGE_SIZE * 2;
                     let mid = start + Self::RANGE_SIZE;
                     let end = mid + Self::RANGE_SIZE;
@@ -171,7 +171,12 @@ impl AggregateMetadata {
                     let meta_start = u32::from_be_bytes(meta_start) as usize;
                     let meta_end = u32::from_be_bytes(meta_end) as usize;
 
-                    (ism, v[meta_start..meta_end].to_vec().into())
+                    // a range starting at zero means there is no metadata for the module
+                    if meta_start == 0 {
+                        return None;
+                    }
+
+                    Some((ism, v[meta_start..meta_end].to_vec().into()))
                 })
                 .collect(),
         )
-- 
2.43.0


From d575e087a829c67b75b8f51fbf7df065d464a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 15/28] fix: keep the first route of a deployed routing module
 in the context

---
 script/deploy/hook.ts | 27 +++++++++++++++------------
 script/deploy/ism.ts  |  2 +-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/script/deploy/hook.ts b/script/deploy/hook.ts
index fba3da4..977f8e7 100644
--- a/script/deploy/hook.ts
+++ b/script/deploy/hook.ts
@@ -48,7 +48,7 @@ const deployRoutingHook = async (
 
   return {
     ...routing,
-    hooks: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc })),
+    hooks: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc }), {}),
   };
 };
 
@@ -113,16 +113,19 @@ const deployCustomRoutingHook = async (
 
   return {
     ...routing,
-    hooks: routes.reduce((acc, v) => ({
-      [v.domain]: {
-        default: v.route,
-        ...customRoutes
-          .filter((r) => r.dest_domain === v.domain)
-          .map(({ recipient, hook }) => ({ recipient, hook }))
-          .reduce((acc, r) => ({ [r.recipient]: r.hook, ...acc })),
-      },
-      ...acc,
-    })),
+    hooks: routes.reduce(
+      (acc, v) => ({
+        [v.domain]: {
+          default: v.route,
+          ...customRoutes
+            .filter((r) => r.dest_domain === v.domain)
+            .map(({ recipient, hook }) => ({ recipient, hook }))
+            .reduce((acc, r) => ({ [r.recipient]: r.hook, ...acc }), {}),
+        },
+        ...acc,
+      }),
+      {},
+    ),
   };
 };
 
@@ -180,7 +183,7 @@ const deployFallbackRoitingHook = async (
     ...routing,
     hooks: {
       fallback,
-      ...routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc })),
+      ...routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc }), {}),
     },
   };
 };
diff --git a/script/deploy/ism.ts b/script/deploy/ism.ts
index d64453a..2747eb6 100644
--- a/script/deploy/ism.ts
+++ b/script/deploy/ism.ts
@@ -25,7 +25,7 @@ const deployRoutingIsm = async (
 
   return {
     ...routing,
-    isms: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc })),
+    isms: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc }), {}),
   };
 };
 
-- 
2.43.0


From a5823ea89f77d607caef8e56400de47c0df16a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 16/28] fix: deploy custom hooks of domains without a default
 hook

---
 script/deploy/hook.ts   | 35 +++++++++++++++++------------------
 script/shared/config.ts |  2 +-
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/script/deploy/hook.ts b/script/deploy/hook.ts
index 977f8e7..ecbcbc3 100644
--- a/script/deploy/hook.ts
+++ b/script/deploy/hook.ts
@@ -62,8 +62,14 @@ const deployCustomRoutingHook = async (
     owner: hook.owner === '<signer>' ? client.signer : hook.owner,
   });
 
+  const customHooks = hook.custom_hooks || {};
+
   // if no hooks, return empty hooks
-  if (Object.keys(hook.hooks).length === 0) return { ...routing, hooks: {} };
+  if (
+    Object.keys(hook.hooks).length === 0 &&
+    Object.keys(customHooks).length === 0
+  )
+    return { ...routing, hooks: {} };
 
   const routes = [];
   for (const [domain, v] of Object.entries(hook.hooks)) {
@@ -78,7 +84,7 @@ const deployCustomRoutingHook = async (
     recipient: string;
     hook: ContextHook;
   }[] = [];
-  for (const [domain, v] of Object.entries(hook.custom_hooks)) {
+  for (const [domain, v] of Object.entries(customHooks)) {
     customRoutes.push({
       dest_domain: parseInt(domain),
       recipient: v.recipient,
@@ -111,22 +117,15 @@ const deployCustomRoutingHook = async (
     },
   ]);
 
-  return {
-    ...routing,
-    hooks: routes.reduce(
-      (acc, v) => ({
-        [v.domain]: {
-          default: v.route,
-          ...customRoutes
-            .filter((r) => r.dest_domain === v.domain)
-            .map(({ recipient, hook }) => ({ recipient, hook }))
-            .reduce((acc, r) => ({ [r.recipient]: r.hook, ...acc }), {}),
-        },
-        ...acc,
-      }),
-      {},
-    ),
-  };
+  const hooks: Record<number, Record<string | 'default', ContextHook>> = {};
+  for (const { domain, route } of routes) {
+    hooks[domain] = { default: route };
+  }
+  for (const { dest_domain, recipient, hook } of customRoutes) {
+    hooks[dest_domain] = { ...hooks[dest_domain], [recipient]: hook };
+  }
+
+  return { ...routing, hooks };
 };
 
 const deployFallbackRoitingHook = async (
diff --git a/script/shared/config.ts b/script/shared/config.ts
index 79bc007..f48a51e 100644
--- a/script/shared/config.ts
+++ b/script/shared/config.ts
@@ -67,7 +67,7 @@ export type RoutingCustomHookType = {
   type: 'routing-custom';
   owner: string;
   hooks: { [domain: number]: HookType };
-  custom_hooks: {
+  custom_hooks?: {
     [domain: number]: { recipient: string; hook: HookType };
   };
 };
-- 
2.43.0


From 96f6a9a303bfd657742c092ed2984cd4b9e9e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 17/28] fix: set the fallback hook when no route is configured

---
 script/deploy/hook.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/script/deploy/hook.ts b/script/deploy/hook.ts
index ecbcbc3..c46dada 100644
--- a/script/deploy/hook.ts
+++ b/script/deploy/hook.ts
@@ -146,8 +146,18 @@ const deployFallbackRoitingHook = async (
   const fallback = await deployHook(networkId, ctx, client, hook.fallback_hook);
 
   // if no hooks, return empty hooks
-  if (Object.keys(hook.hooks).length === 0)
+  if (Object.keys(hook.hooks).length === 0) {
+    await executeMultiMsg(client, [
+      {
+        contract: routing,
+        msg: {
+          set_fallback_hook: { hook: fallback.address },
+        },
+      },
+    ]);
+
     return { ...routing, hooks: { fallback } };
+  }
 
   const routes = await Promise.all(
     Object.entries(hook.hooks).map(async ([domain, v]) => ({
-- 
2.43.0


From ec801740ab761b84d5d7a0dbe1cb8ef16bb0527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 18/28] fix: pass the threshold of an aggregate ism on
 deployment

---
 script/deploy/ism.ts    | 1 +
 script/shared/config.ts | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/script/deploy/ism.ts b/script/deploy/ism.ts
index 2747eb6..da3ad76 100644
--- a/script/deploy/ism.ts
+++ b/script/deploy/ism.ts
@@ -74,6 +74,7 @@ export async function deployIsm(
       const aggregate = await deployContract(ctx, client, 'hpl_ism_aggregate', {
         owner: ism.owner === '<signer>' ? client.signer : ism.owner,
         isms: aggr.map((v) => v.address),
+        threshold: ism.threshold ?? aggr.length,
       });
 
       return { ...aggregate, isms: aggr };
diff --git a/script/shared/config.ts b/script/shared/config.ts
index f48a51e..c9a4760 100644
--- a/script/shared/config.ts
+++ b/script/shared/config.ts
@@ -28,6 +28,8 @@ export type IsmType =
       type: 'aggregate';
       owner: string;
       isms: IsmType[];
+      // number of modules that have to verify a message, default to all
+      threshold?: number;
     }
   | {
       type: 'routing';
-- 
2.43.0


From 6bb4fca05977a1a396f2f6bc8745c58c897fc8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 19/28] fix: deploy the mock ism

---
 script/deploy/ism.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script/deploy/ism.ts b/script/deploy/ism.ts
index da3ad76..621c941 100644
--- a/script/deploy/ism.ts
+++ b/script/deploy/ism.ts
@@ -64,6 +64,11 @@ export async function deployIsm(
       return multisig;
     }
 
+    // deploy mock ism
+    case 'mock': {
+      return deployContract(ctx, client, 'hpl_test_mock_ism', {});
+    }
+
     // deploy aggregate ism
     case 'aggregate': {
       const aggr = [];
-- 
2.43.0


From 0f691ad3c7d39a69e6a3dc41edc7f5cffc7cac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 20/28] fix: set the ism given to warp create

---
 script/commands/warp.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/commands/warp.ts b/script/commands/warp.ts
index c99ab80..9cdd57d 100644
--- a/script/commands/warp.ts
+++ b/script/commands/warp.ts
@@ -101,7 +101,7 @@ function checkConfigType<
 
 async function handleCreate(configFile: string, _: object, cmd: Command) {
   type Option = {
-    ismAddress?: `0x{string}`;
+    ism?: string;
   };
 
   const opts: Option = cmd.optsWithGlobals();
@@ -171,12 +171,12 @@ async function handleCreate(configFile: string, _: object, cmd: Command) {
     }
   }
 
-  if (opts.ismAddress) {
-    console.log(`Setting ISM address to ${opts.ismAddress}`);
+  if (opts.ism) {
+    console.log(`Setting ISM address to ${opts.ism}`);
     const response = await executeContract(deps.client, newWarp, {
       connection: {
         set_ism: {
-          ism: opts.ismAddress,
+          ism: opts.ism,
         },
       },
     });
-- 
2.43.0


From 3b90dc914f95140e51e574c8922abe581491ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 21/28] fix: migrate when some contracts are not deployed

---
 script/commands/migrate.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/commands/migrate.ts b/script/commands/migrate.ts
index 2fe5193..6cf93b7 100644
--- a/script/commands/migrate.ts
+++ b/script/commands/migrate.ts
@@ -35,7 +35,7 @@ async function handleMigrate(_: object, cmd: Command) {
     ctx.deployments.test?.msg_receiver,
     ...(ctx.deployments.warp?.cw20 || []),
     ...(ctx.deployments.warp?.native || []),
-  ].filter((v, i, arr) => arr.indexOf(v) === i) as {
+  ].filter((v, i, arr) => v !== undefined && arr.indexOf(v) === i) as {
     type: ContractNames;
     address: string;
   }[];
-- 
2.43.0


From a0261d76f43ba38cf9947488a54485c69f91b140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 22/28] fix: deploy the hooks the mailbox is given

---
 script/commands/deploy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/commands/deploy.ts b/script/commands/deploy.ts
index 6d62873..7135f22 100644
--- a/script/commands/deploy.ts
+++ b/script/commands/deploy.ts
@@ -20,7 +20,7 @@ async function handleDeploy(_: object, cmd: Command) {
   ctx.deployments = ctx.deployments || {};
   ctx.deployments.core = await deployCore(opts, ctx, client);
   ctx.deployments.isms = await deployIsms(ctx, client);
-  // ctx.deployments.hooks = await deployHooks(opts, ctx, client);
+  ctx.deployments.hooks = await deployHooks(opts, ctx, client);
   // ctx.deployments.warp = { native: [], cw20: [] };
   // ctx.deployments.test = await deployTest(opts, ctx, client);
 
-- 
2.43.0


From bea1c9f87d2d216c7c7c2b1a0372e61bcdae7748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 23/28] fix: nominate no other owner for the deployed ism

---
 script/commands/deploy.ts | 25 -------------------------
 1 file changed, 25 deletions(-)

diff --git a/script/commands/deploy.ts b/script/commands/deploy.ts
index 7135f22..ba448e8 100644
--- a/script/commands/deploy.ts
+++ b/script/commands/deploy.ts
@@ -1,6 +1,5 @@
 import { Command } from 'commander';
 
-import { MsgExecuteContract } from '@injectivelabs/sdk-ts';
 import { deployHook, deployIsm } from '../deploy';
 import { saveAgentConfig } from '../shared/agent';
 import { Client, config, getNetwork } from '../shared/config';
@@ -24,30 +23,6 @@ async function handleDeploy(_: object, cmd: Command) {
   // ctx.deployments.warp = { native: [], cw20: [] };
   // ctx.deployments.test = await deployTest(opts, ctx, client);
 
-  // const updateMsg = MsgUpdateAdmin.fromJSON({
-  //   sender: client.injective_signer,
-  //   newAdmin: 'inj1ac6qpt57vhtfzdecd2an052elwgenwtxcn9chl',
-  //   contract: ctx.deployments.isms?.address!,
-  // });
-
-  const initMsg = MsgExecuteContract.fromJSON({
-    contractAddress: ctx.deployments.isms?.address!,
-    sender: client.injective_signer,
-    msg: {
-      ownable: {
-        init_ownership_transfer: {
-          next_owner: 'inj1ac6qpt57vhtfzdecd2an052elwgenwtxcn9chl'
-        }
-      }
-    }
-  })
-
-  const resp = await client.injective.broadcast({
-    msgs: initMsg,
-  });
-
-  console.log({resp});
-
   if (!ctx.deployments.core?.mailbox)
     throw new Error('deployed Mailbox contract not found on context');
 
-- 
2.43.0


From da2f8ef69f940446fd4a0f0744a9eba074987580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 24/28] fix: merge and sort the funds of warp transfer

---
 script/commands/warp.ts | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/script/commands/warp.ts b/script/commands/warp.ts
index 9cdd57d..0a7064b 100644
--- a/script/commands/warp.ts
+++ b/script/commands/warp.ts
@@ -274,6 +274,16 @@ async function handleTransfer(_: object, cmd: Command) {
     return;
   }
 
+  const amount = opts.amount ? `${opts.amount}` : `${1_000_000n}`;
+  const denom = opts.bridgedDenom || 'uosmo';
+  const fee = { amount: `${50n}`, denom: opts.feeDenom || 'uosmo' };
+
+  // a denom may occur only once in the funds, and they have to be sorted
+  const funds =
+    denom === fee.denom
+      ? [{ amount: `${BigInt(amount) + BigInt(fee.amount)}`, denom }]
+      : [{ amount, denom }, fee].sort((a, b) => (a.denom < b.denom ? -1 : 1));
+
   await executeContract(
     deps.client,
     route,
@@ -281,18 +291,9 @@ async function handleTransfer(_: object, cmd: Command) {
       transfer_remote: {
         dest_domain: parseInt(opts.targetDomain),
         recipient: addPad(deps.client.signer_addr),
-        amount: opts.amount ? `${opts.amount}` : `${1_000_000n}`,
+        amount,
       },
     },
-    [
-      {
-        amount: opts.amount ? `${opts.amount}` : `${1_000_000n}`,
-        denom: opts.bridgedDenom || 'uosmo',
-      },
-      {
-        amount: `${50n}`,
-        denom: opts.feeDenom || 'uosmo',
-      },
-    ],
+    funds,
   );
 }
-- 
2.43.0


From ecdb77be628a29fdbe8f7256aef467d39e844717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 25/28] fix: print one 0x in wallet convert-cosmos-to-eth

---
 script/commands/wallet.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/commands/wallet.ts b/script/commands/wallet.ts
index 0f56fb5..698edb3 100644
--- a/script/commands/wallet.ts
+++ b/script/commands/wallet.ts
@@ -83,7 +83,7 @@ walletCmd
   )
   .description('zero pads an ETH address to length 64 bytes')
   .action((address: string) =>
-    console.log(`0x${extractByte32AddrFromBech32(address)}`),
+    console.log(extractByte32AddrFromBech32(address)),
   );
 
 export { walletCmd };
-- 
2.43.0


From 070251b5b2fd1cf9859ea176cd5e5f54ee7f8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 26/28] fix: record uploaded codes when a later upload fails

---
 script/commands/upload.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/commands/upload.ts b/script/commands/upload.ts
index b4d777f..67dcac0 100644
--- a/script/commands/upload.ts
+++ b/script/commands/upload.ts
@@ -225,6 +225,9 @@ async function upload({
 
     ctx.artifacts[diff] = upload.codeId;
     okCount++;
+
+    // save each of them, a failure later on must not lose the uploaded codes
+    saveContext(networkId, ctx);
   }
 
   if (okCount === 0) {
@@ -239,5 +242,4 @@ async function upload({
     '[SUCCESS]'.green.padEnd(10, ' '),
     `uploaded ${okCount} contracts.`,
   );
-  saveContext(networkId, ctx);
 }
-- 
2.43.0


From 1e45bff1c355641cc0b623e1981b90bca17dd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 27/28] fix: make an agent config for cradle networks

---
 script/shared/agent.ts |  8 +++++---
 script/shared/wasm.ts  | 36 +++++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/script/shared/agent.ts b/script/shared/agent.ts
index 8726c6c..0234a92 100644
--- a/script/shared/agent.ts
+++ b/script/shared/agent.ts
@@ -7,7 +7,7 @@ import { Config } from './config';
 import { defaultContextPath } from './constants';
 import { Context, ContextHook } from './context';
 import { extractByte32AddrFromBech32 as fromBech32 } from './utils';
-import { getContractInfo } from './wasm';
+import { getContractInfo, getEndpoint } from './wasm';
 
 export async function fromContext(
   network: Config['networks'][number],
@@ -22,6 +22,8 @@ export async function fromContext(
   if (!hooks?.default || !hooks?.required)
     throw new Error('No hooks found on this context');
 
+  const endpoint = getEndpoint(network);
+
   const mailboxAddr = core.mailbox.address;
   const mailboxContractInfo = await getContractInfo(network, mailboxAddr);
 
@@ -42,8 +44,8 @@ export async function fromContext(
         chainId: network.id,
         protocol: ProtocolType.Cosmos,
 
-        rpcUrls: [{ http: network.endpoint.rpc }],
-        grpcUrls: [{ http: network.endpoint.grpc }],
+        rpcUrls: [{ http: endpoint.rpc }],
+        grpcUrls: [{ http: endpoint.grpc }],
         canonicalAsset: network.gas.denom,
         bech32Prefix: network.hrp,
 
diff --git a/script/shared/wasm.ts b/script/shared/wasm.ts
index a77aac4..ab1feea 100644
--- a/script/shared/wasm.ts
+++ b/script/shared/wasm.ts
@@ -65,26 +65,32 @@ export type ContractInfoResp = {
   };
 };
 
+export function getEndpoint(network: Config['networks'][number]): {
+  rpc: string;
+  rest: string;
+  grpc: string;
+} {
+  return network.is_cradle
+    ? {
+        rpc: (
+          network.cradle_rpc_base_url || DEFAULT_CRADLE_RPC_BASE_URL
+        ).replaceAll('{session_id}', network.cradle_session_id),
+        rest: (
+          network.cradle_rest_base_url || DEFAULT_CRADLE_REST_BASE_URL
+        ).replaceAll('{session_id}', network.cradle_session_id),
+        grpc: (
+          network.cradle_grpc_base_url || DEFAULT_CRADLE_GRPC_BASE_URL
+        ).replaceAll('{session_id}', network.cradle_session_id),
+      }
+    : network.endpoint;
+}
+
 export async function getContractInfo(
   network: Config['networks'][number],
   addr: string,
 ): Promise<ContractInfoResp | undefined> {
   try {
-    // FIXME: refactor this
-    const endpoint = (() =>
-      network.is_cradle
-        ? {
-            rpc: (
-              network.cradle_rpc_base_url || DEFAULT_CRADLE_RPC_BASE_URL
-            ).replaceAll('{session_id}', network.cradle_session_id),
-            rest: (
-              network.cradle_rest_base_url || DEFAULT_CRADLE_REST_BASE_URL
-            ).replaceAll('{session_id}', network.cradle_session_id),
-            grpc: (
-              network.cradle_grpc_base_url || DEFAULT_CRADLE_GRPC_BASE_URL
-            ).replaceAll('{session_id}', network.cradle_session_id),
-          }
-        : network.endpoint)();
+    const endpoint = getEndpoint(network);
 
     const res = await fetch(
       path.join(endpoint.rest, '/cosmwasm/wasm/v1/contract/', addr),
-- 
2.43.0


From 8a557589a7b0526bf5f9cd575f29e78adb2a98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:15 +0000
Subject: [PATCH 28/28] fix: compare release tags by their numbers

---
 script/commands/upload.ts |  8 ++++++--
 script/shared/github.ts   | 20 +++++++++++++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/script/commands/upload.ts b/script/commands/upload.ts
index 67dcac0..e9c7a35 100644
--- a/script/commands/upload.ts
+++ b/script/commands/upload.ts
@@ -20,7 +20,11 @@ import {
 } from '../shared/constants';
 import { saveContext } from '../shared/context';
 import { ContractNames } from '../shared/contract';
-import { downloadReleases, getReleases } from '../shared/github';
+import {
+  downloadReleases,
+  getReleases,
+  isSupportedRelease,
+} from '../shared/github';
 import { CONTAINER, Dependencies } from '../shared/ioc';
 import { askQuestion, waitTx } from '../shared/utils';
 import { getWasmPath, loadWasmFileDigest } from '../shared/wasm';
@@ -73,7 +77,7 @@ async function handleRemote(
     setInstantiateAdmin?: boolean;
   };
 
-  if (tagName < REMOTE_MIN_VERSION)
+  if (!isSupportedRelease(tagName))
     throw new Error(`${tagName} < ${REMOTE_MIN_VERSION}`);
 
   const releases = await getReleases();
diff --git a/script/shared/github.ts b/script/shared/github.ts
index 7fa10e7..4344f75 100644
--- a/script/shared/github.ts
+++ b/script/shared/github.ts
@@ -13,6 +13,24 @@ interface ReleaseApiResp {
   tag_name: string;
 }
 
+// numbers of a release tag, v<major>.<minor>.<patch>[-rc<candidate>].
+// a release comes after all of its candidates
+const parseTag = (tag: string): number[] => {
+  const [version, candidate] = tag.replace(/^v/, '').split('-rc');
+  return [
+    ...version.split('.').map(Number),
+    candidate === undefined ? Infinity : Number(candidate),
+  ];
+};
+
+export const isSupportedRelease = (tag: string): boolean => {
+  const parsed = parseTag(tag);
+  const min = parseTag(REMOTE_MIN_VERSION);
+
+  const diff = min.findIndex((v, i) => v !== parsed[i]);
+  return diff === -1 || parsed[diff] > min[diff];
+};
+
 export const getReleases = async (): Promise<Record<string, string>> => {
   const apiResp = await fetch(RELEASE_API_URL);
   const releases = (await apiResp.json()) as ReleaseApiResp[];
@@ -20,7 +38,7 @@ export const getReleases = async (): Promise<Record<string, string>> => {
   return Object.fromEntries(
     releases
       .map((v) => v.tag_name)
-      .filter((v) => v >= REMOTE_MIN_VERSION)
+      .filter(isSupportedRelease)
       .map((v) => [v, RELEASE_ARTIFACT_URL(v)]),
   );
 };
-- 
2.43.0

