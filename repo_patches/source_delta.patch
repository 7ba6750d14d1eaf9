From cb56d29c600a2049d1ea1140b5ce156d6ef19ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 01/15] fix: warp transfer_remote must refuse recipients that
 are not 32 bytes long

---
 contracts/warp/cw20/src/contract.rs   | 3 +++
 contracts/warp/native/src/contract.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 503b2a2..4174090 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -196,6 +196,9 @@ fn transfer_remote(
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
 
+    // the recipient is a fixed-size field of the token message
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength {});
+
     let dest_router = get_route::<HexBinary>(deps.storage, dest_domain)?
         .route
         .expect("route not found");
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index ef6c234..dc1e53b 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -209,6 +209,9 @@ fn transfer_remote(
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
 
+    // the recipient is a fixed-size field of the token message
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength);
+
     let mut funds = info.funds.clone();
 
     let (token_index, token_received) = funds
-- 
2.43.0


From 7b0cfe3fd2d15e8356e5f3dfd9a1d0bcdde56be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 02/15] fix: igp must accept a gas payment without funds when
 the price is zero

---
 contracts/igps/core/src/execute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/igps/core/src/execute.rs b/contracts/igps/core/src/execute.rs
index 1578ab7..52bc799 100644
--- a/contracts/igps/core/src/execute.rs
+++ b/contracts/igps/core/src/execute.rs
@@ -149,8 +149,12 @@ pub fn pay_for_gas(
     refund_address: String,
 ) -> Result<Response, ContractError> {
     let gas_token = GAS_TOKEN.load(deps.storage)?;
-    let received = Uint256::from(cw_utils::must_pay(&info, &gas_token)?);
     let gas_needed = quote_gas_price(deps.storage, &deps.querier, dest_domain, gas_amount)?;
+    // nothing has to be attached when the payment is free
+    let received = Uint256::from(match gas_needed.is_zero() {
+        true => cw_utils::may_pay(&info, &gas_token)?,
+        false => cw_utils::must_pay(&info, &gas_token)?,
+    });
     ensure!(
         received >= gas_needed,
         ContractError::InsufficientFunds {
-- 
2.43.0


From 2c8ee17c767cbe92d1812fd7a79610e96e6403e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 03/15] fix: igp refund address must not be cut when it starts
 with zero bytes

---
 packages/interface/src/types/metadata.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 15b56ab..3620002 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -250,18 +250,8 @@ impl IGPMetadata {
             return default;
         }
 
-        let raw_addr = match self
-            .refund_address
-            .to_vec()
-            .iter()
-            .take(16)
-            .all(|&byte| byte == 0)
-        {
-            true => self.refund_address.to_vec()[16..].to_vec(),
-            false => self.refund_address.to_vec(),
-        };
-
-        bech32_encode(hrp, &raw_addr).unwrap()
+        // handles both the plain and the zero-padded form of an account
+        bech32_encode(hrp, &self.refund_address).unwrap()
     }
 }
 
-- 
2.43.0


From 5067fe1cb043005f2c7bad6c65370f94216c8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 04/15] fix: routing hooks must forward the attached funds to
 the routed hook

---
 contracts/hooks/routing-custom/src/lib.rs   | 4 ++--
 contracts/hooks/routing-fallback/src/lib.rs | 4 ++--
 contracts/hooks/routing/src/lib.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/hooks/routing-custom/src/lib.rs b/contracts/hooks/routing-custom/src/lib.rs
index 1a355a7..32aecd4 100644
--- a/contracts/hooks/routing-custom/src/lib.rs
+++ b/contracts/hooks/routing-custom/src/lib.rs
@@ -284,12 +284,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 97ef08f..9e2cc2c 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -126,12 +126,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 pub fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing/src/lib.rs b/contracts/hooks/routing/src/lib.rs
index 341c90c..b485cc9 100644
--- a/contracts/hooks/routing/src/lib.rs
+++ b/contracts/hooks/routing/src/lib.rs
@@ -123,12 +123,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
-- 
2.43.0


From 122f07416f55405855c4f390d0eba46b8c1f6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:54 +0000
Subject: [PATCH 05/15] fix: fee hook with a zero fee must not require a
 payment

---
 contracts/hooks/fee/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/contracts/hooks/fee/src/lib.rs b/contracts/hooks/fee/src/lib.rs
index be2de06..ae08fc6 100644
--- a/contracts/hooks/fee/src/lib.rs
+++ b/contracts/hooks/fee/src/lib.rs
@@ -113,7 +113,11 @@ pub fn execute(
         },
         ExecuteMsg::PostDispatch(_) => {
             let fee = COIN_FEE.load(deps.storage)?;
-            let supplied = cw_utils::must_pay(&info, &fee.denom)?;
+            // nothing has to be attached when the fee is zero
+            let supplied = match fee.amount.is_zero() {
+                true => cw_utils::may_pay(&info, &fee.denom)?,
+                false => cw_utils::must_pay(&info, &fee.denom)?,
+            };
 
             ensure!(
                 supplied.u128() >= fee.amount.u128(),
@@ -150,7 +154,11 @@ fn get_mailbox(_deps: Deps) -> Result<MailboxResponse, ContractError> {
 
 fn quote_dispatch(deps: Deps) -> Result<QuoteDispatchResponse, ContractError> {
     let fee = COIN_FEE.load(deps.storage)?;
-    Ok(QuoteDispatchResponse { fees: vec![fee] })
+    let fees = match fee.amount.is_zero() {
+        true => vec![],
+        false => vec![fee],
+    };
+    Ok(QuoteDispatchResponse { fees })
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-- 
2.43.0


From 3788d341677a6ca0d64d9ad19e8caf655828cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 06/15] fix: routing ism verification info must be asked with
 the query format modules understand

---
 contracts/isms/routing/src/contract.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/isms/routing/src/contract.rs b/contracts/isms/routing/src/contract.rs
index bba8f9a..e0b4d41 100644
--- a/contracts/isms/routing/src/contract.rs
+++ b/contracts/isms/routing/src/contract.rs
@@ -7,7 +7,7 @@ use cw2::set_contract_version;
 use hpl_interface::{
     ism::{
         routing::{ExecuteMsg, InstantiateMsg, QueryMsg, RouteResponse, RoutingIsmQueryMsg},
-        IsmQueryMsg, ModuleTypeResponse, VerifyResponse,
+        IsmQueryMsg, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse,
     },
     types::Message,
 };
@@ -129,11 +129,11 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<QueryResponse, Contr
                     .may_load(deps.storage, decoded.origin_domain)?
                     .ok_or(ContractError::RouteNotFound {})?;
 
-                let verify_resp: VerifyResponse = deps
+                let verify_info_resp: VerifyInfoResponse = deps
                     .querier
-                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message })?;
+                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message }.wrap())?;
 
-                Ok(to_json_binary(&verify_resp)?)
+                Ok(to_json_binary(&verify_info_resp)?)
             }
         },
         QueryMsg::RoutingIsm(msg) => match msg {
-- 
2.43.0


From f336cdc9f2050bbbaf7908276a17582483e92a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 07/15] fix: aggregate ism must validate its threshold at
 instantiation

---
 contracts/isms/aggregate/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 0d39848..5dc04f3 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -33,6 +33,19 @@ fn new_event(name: &str) -> Event {
     Event::new(format!("hpl_ism_aggregate::{}", name))
 }
 
+fn validate_threshold(isms: &[String], threshold: u8) -> Result<(), ContractError> {
+    ensure!(
+        threshold > 0,
+        ContractError::InvalidThreshold("threshold must not be zero".to_string())
+    );
+    ensure!(
+        isms.len() >= threshold as usize,
+        ContractError::InvalidThreshold("threshold should be less than ism count".to_string())
+    );
+
+    Ok(())
+}
+
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn instantiate(
     deps: DepsMut,
@@ -42,6 +55,8 @@ pub fn instantiate(
 ) -> Result<Response, ContractError> {
     set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
 
+    validate_threshold(&msg.isms, msg.threshold)?;
+
     let owner = deps.api.addr_validate(&msg.owner)?;
     let isms = msg
         .isms
@@ -78,16 +93,7 @@ pub fn execute(
                 info.sender,
                 ContractError::Unauthorized
             );
-            ensure!(
-                threshold > 0,
-                ContractError::InvalidThreshold("threshold must not be zero".to_string())
-            );
-            ensure!(
-                isms.len() >= threshold as usize,
-                ContractError::InvalidThreshold(
-                    "threshold should be less than ism count".to_string()
-                )
-            );
+            validate_threshold(&isms, threshold)?;
 
             let parsed_isms = isms
                 .iter()
-- 
2.43.0


From 8f4b7dd53a1f3dd8fcd33719740a66ad69c6e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 08/15] fix: aggregate ism must tolerate modules that fail to
 verify

---
 contracts/isms/aggregate/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 5dc04f3..0c0c06f 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -149,7 +149,9 @@ fn verify(
     let mut threshold = THRESHOLD.load(deps.storage)?;
 
     for (ism, meta) in AggregateMetadata::from_hex(metadata, isms) {
-        let verified = hpl_interface::ism::verify(&deps.querier, ism, meta, message.clone())?;
+        // a module that fails just does not count
+        let verified =
+            hpl_interface::ism::verify(&deps.querier, ism, meta, message.clone()).unwrap_or(false);
 
         if verified {
             threshold -= 1;
-- 
2.43.0


From f55cda4f9f6b12d7305bdaa6104e2dc45091aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 09/15] fix: igp oracle must refuse a zero exchange rate in
 single updates too

---
 contracts/igps/oracle/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/igps/oracle/src/contract.rs b/contracts/igps/oracle/src/contract.rs
index 464a76f..da39bcb 100644
--- a/contracts/igps/oracle/src/contract.rs
+++ b/contracts/igps/oracle/src/contract.rs
@@ -73,6 +73,11 @@ pub fn execute(
                 ContractError::Unauthorized {}
             );
 
+            ensure!(
+                !config.token_exchange_rate.is_zero(),
+                ContractError::invalid_config("exchange rate must be non-zero")
+            );
+
             let domain = config.remote_domain.to_string();
             insert_gas_data(deps.storage, config)?;
 
-- 
2.43.0


From 4399bd055e52c9bcb4b65ad7352017e92429ba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 10/15] fix: mailbox needs a default ism only when the
 recipient has none

---
 contracts/core/mailbox/src/execute.rs | 3 ++-
 contracts/core/mailbox/src/query.rs   | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/core/mailbox/src/execute.rs b/contracts/core/mailbox/src/execute.rs
index 6d1d7cb..88cf253 100644
--- a/contracts/core/mailbox/src/execute.rs
+++ b/contracts/core/mailbox/src/execute.rs
@@ -181,7 +181,8 @@ pub fn process(
     );
 
     let id = decoded_msg.id();
-    let ism = ism::recipient(&deps.querier, &recipient)?.unwrap_or(config.get_default_ism());
+    let ism =
+        ism::recipient(&deps.querier, &recipient)?.unwrap_or_else(|| config.get_default_ism());
 
     ensure!(
         !DELIVERIES.has(deps.storage, id.to_vec()),
diff --git a/contracts/core/mailbox/src/query.rs b/contracts/core/mailbox/src/query.rs
index e2e0a15..fdacf66 100644
--- a/contracts/core/mailbox/src/query.rs
+++ b/contracts/core/mailbox/src/query.rs
@@ -68,11 +68,11 @@ pub fn get_recipient_ism(
     deps: Deps,
     recipient: String,
 ) -> Result<RecipientIsmResponse, ContractError> {
-    let default_ism = CONFIG.load(deps.storage)?.get_default_ism();
+    let config = CONFIG.load(deps.storage)?;
 
     let recipient = deps.api.addr_validate(&recipient)?;
 
-    let ism = ism::recipient(&deps.querier, recipient)?.unwrap_or(default_ism);
+    let ism = ism::recipient(&deps.querier, recipient)?.unwrap_or_else(|| config.get_default_ism());
 
     Ok(RecipientIsmResponse { ism: ism.into() })
 }
-- 
2.43.0


From 8c23a609c7344f2e53a945115976a7df1945ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 11/15] fix: mailbox needs a default hook only when the
 dispatch selects none

---
 contracts/core/mailbox/src/execute.rs  | 2 +-
 contracts/core/mailbox/src/query.rs    | 3 +--
 packages/interface/src/core/mailbox.rs | 4 ++--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/contracts/core/mailbox/src/execute.rs b/contracts/core/mailbox/src/execute.rs
index 88cf253..91ecad2 100644
--- a/contracts/core/mailbox/src/execute.rs
+++ b/contracts/core/mailbox/src/execute.rs
@@ -113,7 +113,7 @@ pub fn dispatch(
             .clone()
             .to_msg(MAILBOX_VERSION, nonce, config.local_domain, &info.sender)?;
     let metadata = dispatch_msg.clone().metadata.unwrap_or_default();
-    let hook = dispatch_msg.get_hook_addr(deps.api, config.get_default_hook())?;
+    let hook = dispatch_msg.get_hook_addr(deps.api, || config.get_default_hook())?;
 
     // assert gas received satisfies required gas
     let required_hook = config.get_required_hook();
diff --git a/contracts/core/mailbox/src/query.rs b/contracts/core/mailbox/src/query.rs
index fdacf66..e69f5c7 100644
--- a/contracts/core/mailbox/src/query.rs
+++ b/contracts/core/mailbox/src/query.rs
@@ -99,12 +99,11 @@ pub fn quote_dispatch(
         .clone()
         .to_msg(MAILBOX_VERSION, nonce, config.local_domain, sender)?;
 
-    let default_hook = config.get_default_hook();
     let required_hook = config.get_required_hook();
 
     let base_fee = hook::quote_dispatch(
         &deps.querier,
-        dispatch_msg.get_hook_addr(deps.api, default_hook)?,
+        dispatch_msg.get_hook_addr(deps.api, || config.get_default_hook())?,
         dispatch_msg.metadata.clone().unwrap_or_default(),
         msg.clone(),
     )?
diff --git a/packages/interface/src/core/mailbox.rs b/packages/interface/src/core/mailbox.rs
index edebe0b..e113831 100644
--- a/packages/interface/src/core/mailbox.rs
+++ b/packages/interface/src/core/mailbox.rs
@@ -67,13 +67,13 @@ impl DispatchMsg {
         })
     }
 
-    pub fn get_hook_addr(&self, api: &dyn Api, default: Addr) -> StdResult<Addr> {
+    pub fn get_hook_addr(&self, api: &dyn Api, default: impl FnOnce() -> Addr) -> StdResult<Addr> {
         Ok(self
             .hook
             .as_ref()
             .map(|v| api.addr_validate(v))
             .transpose()?
-            .unwrap_or(default))
+            .unwrap_or_else(default))
     }
 }
 
-- 
2.43.0


From ccd0e2e307cf98d19b372048144989846ee0dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 12/15] fix: warp routes must use the mailbox their owner set

---
 contracts/warp/cw20/src/contract.rs   | 19 ++++++++++++++-----
 contracts/warp/native/src/contract.rs | 18 +++++++++++++-----
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 4174090..94bedf9 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -1,12 +1,13 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
-    MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256, WasmMsg,
+    ensure_eq, to_json_binary, wasm_execute, Addr, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
+    MessageInfo, QueryResponse, Reply, Response, StdError, Storage, SubMsg, Uint128, Uint256,
+    WasmMsg,
 };
 
 use cw20::Cw20ExecuteMsg;
-use hpl_connection::{get_hook, get_ism};
+use hpl_connection::{get_hook, get_ism, get_mailbox};
 use hpl_interface::{
     core::mailbox,
     ism::{InterchainSecurityModuleResponse, IsmSpecifierQueryMsg},
@@ -139,6 +140,14 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
     }
 }
 
+// mailbox set through the connection overrides the one given at instantiation
+fn load_mailbox(storage: &dyn Storage) -> Result<Addr, ContractError> {
+    match get_mailbox(storage)? {
+        Some(mailbox) => Ok(mailbox),
+        None => Ok(MAILBOX.load(storage)?),
+    }
+}
+
 fn mailbox_handle(
     deps: DepsMut,
     info: MessageInfo,
@@ -147,7 +156,7 @@ fn mailbox_handle(
     // validate mailbox
     ensure_eq!(
         info.sender,
-        MAILBOX.load(deps.storage)?,
+        load_mailbox(deps.storage)?,
         ContractError::Unauthorized
     );
     // validate origin chain router
@@ -194,7 +203,7 @@ fn transfer_remote(
 ) -> Result<Response, ContractError> {
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
-    let mailbox = MAILBOX.load(deps.storage)?;
+    let mailbox = load_mailbox(deps.storage)?;
 
     // the recipient is a fixed-size field of the token message
     ensure_eq!(recipient.len(), 32, ContractError::WrongLength {});
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index dc1e53b..01e1919 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -1,10 +1,10 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    ensure, ensure_eq, to_json_binary, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
-    MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256,
+    ensure, ensure_eq, to_json_binary, Addr, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
+    MessageInfo, QueryResponse, Reply, Response, StdError, Storage, SubMsg, Uint128, Uint256,
 };
-use hpl_connection::{get_hook, get_ism};
+use hpl_connection::{get_hook, get_ism, get_mailbox};
 use hpl_interface::{
     core::mailbox,
     ism::{InterchainSecurityModuleResponse, IsmSpecifierQueryMsg},
@@ -143,6 +143,14 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
     }
 }
 
+// mailbox set through the connection overrides the one given at instantiation
+fn load_mailbox(storage: &dyn Storage) -> Result<Addr, ContractError> {
+    match get_mailbox(storage)? {
+        Some(mailbox) => Ok(mailbox),
+        None => Ok(MAILBOX.load(storage)?),
+    }
+}
+
 fn mailbox_handle(
     deps: DepsMut,
     env: Env,
@@ -152,7 +160,7 @@ fn mailbox_handle(
     // validate mailbox
     ensure_eq!(
         info.sender,
-        MAILBOX.load(deps.storage)?,
+        load_mailbox(deps.storage)?,
         ContractError::Unauthorized
     );
     // validate message origin - this should be registered route
@@ -207,7 +215,7 @@ fn transfer_remote(
 ) -> Result<Response, ContractError> {
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
-    let mailbox = MAILBOX.load(deps.storage)?;
+    let mailbox = load_mailbox(deps.storage)?;
 
     // the recipient is a fixed-size field of the token message
     ensure_eq!(recipient.len(), 32, ContractError::WrongLength);
-- 
2.43.0


From a7ee8f54701feb857ddaa9bf5be9d8d5d0f8b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 13/15] fix: addresses that are neither 20 nor 32 bytes have no
 32-byte form

---
 packages/interface/src/types/bech32.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/interface/src/types/bech32.rs b/packages/interface/src/types/bech32.rs
index b2441e8..9df969d 100644
--- a/packages/interface/src/types/bech32.rs
+++ b/packages/interface/src/types/bech32.rs
@@ -4,6 +4,13 @@ use cosmwasm_std::{Addr, StdError, StdResult};
 pub fn bech32_to_h256(target: &str) -> StdResult<[u8; 32]> {
     let raw_addr = bech32_decode(target)?;
 
+    if raw_addr.len() != 32 && raw_addr.len() != 20 {
+        return Err(StdError::generic_err(format!(
+            "invalid raw address length. expected: 32 or 20. got: {}",
+            raw_addr.len()
+        )));
+    }
+
     let mut addr = [0u8; 32];
     addr[32 - raw_addr.len()..].copy_from_slice(&raw_addr);
 
-- 
2.43.0


From 0c4e99576e4a4c9d2441e685b836d923132babf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 14/15] fix: fallback routing hook needs its fallback only when
 there is no route

---
 contracts/hooks/routing-fallback/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 9e2cc2c..879de58 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -116,10 +116,11 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
     let decoded_msg: Message = message.clone().into();
     let dest_domain = decoded_msg.dest_domain;
 
-    let fallback_hook = FALLBACK_HOOK.load(storage)?;
-
     let routed_hook_set = hpl_router::get_route::<Addr>(storage, dest_domain)?;
-    let routed_hook = routed_hook_set.route.unwrap_or(fallback_hook);
+    let routed_hook = match routed_hook_set.route {
+        Some(hook) => hook,
+        None => FALLBACK_HOOK.load(storage)?,
+    };
 
     Ok((decoded_msg, routed_hook))
 }
-- 
2.43.0


From 528d9c23c66eabec73a8412824ccb2b9d276d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:29 +0000
Subject: [PATCH 15/15] fix: list router domains when some route is unset

---
 packages/router/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/router/src/lib.rs b/packages/router/src/lib.rs
index b11de61..40b8f64 100644
--- a/packages/router/src/lib.rs
+++ b/packages/router/src/lib.rs
@@ -144,7 +144,8 @@ pub fn get_domains<T>(storage: &dyn Storage) -> StdResult<Vec<u32>>
 where
     T: Serialize + DeserializeOwned + Clone + Eq,
 {
-    get_route_map::<T>()
+    // values of unset routes are null, and keys() decodes values too
+    get_route_map::<Option<T>>()
         .keys(storage, None, None, Order::Asc.into())
         .collect()
 }
-- 
2.43.0

