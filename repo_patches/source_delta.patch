From 90287bbc839bb0edb6f69c3a8bc1abbe664f61bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 1/2] fix: refuse fills of free-funds orders while the market
 is not active

The status check in process_new_order looked only at the token amounts to
withdraw, which place_order zeroes for orders that use deposited funds only,
so PlaceLimitOrderWithFreeFunds could be filled on a PostOnly market.
---
 src/program/processor/new_order.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..1ec8fef 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -376,6 +376,7 @@ fn process_new_order<'a, 'info>(
 
     let side = order_packet.side();
     let (
+        order_matched,
         quote_atoms_to_withdraw,
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
@@ -421,6 +422,10 @@ fn process_new_order<'a, 'info>(
         }
 
         (
+            // The amounts to withdraw cannot be used for this, as they are zero for orders that only use
+            // deposited funds
+            matching_engine_response.num_base_lots() > BaseLots::ZERO
+                || matching_engine_response.num_quote_lots() > QuoteLots::ZERO,
             matching_engine_response.num_quote_lots_out * quote_lot_size,
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
@@ -431,7 +436,7 @@ fn process_new_order<'a, 'info>(
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if order_matched {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0


From 5ed792a9ea9f55cf1a889ba014dd0c1eacd09c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 2/2] fix: refuse a zero tick size and a base unit of zero raw
 units at market creation

---
 src/program/processor/initialize.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 1ac157e..a642d25 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -104,6 +104,17 @@ pub(crate) fn process_initialize_market<'a, 'info>(
         ProgramError::InvalidInstructionData,
         "Taker fee must be less than or equal to 10000 basis points (100%)",
     )?;
+    // A zero tick size or a base unit without any atoms would make every order or every lot worthless
+    assert_with_msg(
+        tick_size_in_quote_lots_per_base_unit > QuoteLotsPerBaseUnitPerTick::ZERO,
+        ProgramError::InvalidInstructionData,
+        "Tick size must be greater than 0",
+    )?;
+    assert_with_msg(
+        raw_base_units_per_base_unit != Some(0),
+        ProgramError::InvalidInstructionData,
+        "The number of raw base units per base unit must be greater than 0",
+    )?;
 
     let base_atoms_per_base_unit = BaseAtomsPerBaseUnit::new(
         10u64.pow(base_mint.decimals as u32) * raw_base_units_per_base_unit.unwrap_or(1) as u64,
-- 
2.43.0

