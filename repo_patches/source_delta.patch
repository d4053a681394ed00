From 8f8f22e4201dcf323b334427f881c754bf40acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 1/3] fix: write claimed order state only after the claim can
 no longer fail

claim_order removed or rewrote the order before computing the payouts. A batch
claim ignores errors of single claims but keeps their state changes, so a claim
failing late (e.g. without a maker fee recipient) lost the order unpaid.
---
 contracts/sumtree-orderbook/src/order.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/order.rs b/contracts/sumtree-orderbook/src/order.rs
index c97ec62..8afca0f 100644
--- a/contracts/sumtree-orderbook/src/order.rs
+++ b/contracts/sumtree-orderbook/src/order.rs
@@ -673,14 +673,6 @@ pub(crate) fn claim_order(
     order.quantity = order.quantity.checked_sub(amount_filled)?;
     order.etas = order.etas.checked_add(amount_filled_dec)?;
 
-    // If order fully filled then remove
-    if order.quantity.is_zero() {
-        orders().remove(storage, &key)?;
-    // Else update in state
-    } else {
-        orders().save(storage, &key, &order)?;
-    }
-
     // Calculate amount to be sent to order owner
     let tick_price = tick_to_price(tick_id)?;
     let mut amount = amount_to_value(
@@ -763,5 +755,15 @@ pub(crate) fn claim_order(
         bank_msg_vec.push(SubMsg::reply_on_error(maker_fee_msg, REPLY_ID_MAKER_FEE));
     }
 
+    // Order state is only written once nothing can fail anymore, as batch claims
+    // commit the state changes of a claim even if it returns an error.
+    // If order fully filled then remove
+    if order.quantity.is_zero() {
+        orders().remove(storage, &key)?;
+    // Else update in state
+    } else {
+        orders().save(storage, &key, &order)?;
+    }
+
     Ok((amount, bank_msg_vec, order))
 }
-- 
2.43.0


From e72ba6af18895cccd05cdba62f11088fd5991766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 2/3] fix: void a pending admin offer when the admin changes or
 is removed

An offer made by an admin stayed claimable after that admin renounced, was
replaced or was removed by governance, so a removed admin could hand itself
the role back through an address it had offered the role to before.
---
 contracts/sumtree-orderbook/src/auth.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/auth.rs b/contracts/sumtree-orderbook/src/auth.rs
index b92d0ff..5aeea9c 100644
--- a/contracts/sumtree-orderbook/src/auth.rs
+++ b/contracts/sumtree-orderbook/src/auth.rs
@@ -184,12 +184,14 @@ pub(crate) fn update_admin(
     // Ensure provided address is valid
     api.addr_validate(new_admin.as_str())?;
     ADMIN.save(storage, &new_admin)?;
-    Ok(())
+    // An offer made by the previous admin must not outlive its adminship
+    remove_admin_transfer(storage)
 }
 
 pub(crate) fn remove_admin(storage: &mut dyn Storage) -> ContractResult<()> {
     ADMIN.remove(storage);
-    Ok(())
+    // An offer made by the removed admin must not outlive its adminship
+    remove_admin_transfer(storage)
 }
 
 pub(crate) fn get_admin(storage: &dyn Storage) -> ContractResult<Option<Addr>> {
-- 
2.43.0


From 245850bd4b7c16af128946d1a9a3ebd65154e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 3/3] fix: declare the response type GetMakerFee actually
 returns

---
 contracts/sumtree-orderbook/src/msg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/msg.rs b/contracts/sumtree-orderbook/src/msg.rs
index b9d1c9b..d3b4dba 100644
--- a/contracts/sumtree-orderbook/src/msg.rs
+++ b/contracts/sumtree-orderbook/src/msg.rs
@@ -105,7 +105,7 @@ pub enum QueryMsg {
         limit: Option<usize>,
     },
 
-    #[returns(MakerFee)]
+    #[returns(Decimal256)]
     GetMakerFee {},
 
     // -- Auth Queries --
-- 
2.43.0

