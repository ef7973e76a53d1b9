From c826ea0e036d6f8eebe7c0db6fced692907e2b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:19 +0000
Subject: [PATCH 1/3] fix: do not skip a matchable pegged order after an
 unrepresentable one

When walking one side of the book, advancing past a pegged order whose
price is below one returned the skipped order itself instead of the one
after it. The walk then ended up one order ahead and missed a pegged order
that could be matched.
---
 programs/openbook-v2/src/state/orderbook/bookside_iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
index 587b60c..7a7992f 100644
--- a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
+++ b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
@@ -179,7 +179,8 @@ impl<'a> Iterator for BookSideIter<'a> {
                 if oracle_pegged_price(oracle_price_lots, o_node, side).0 != OrderState::Skipped {
                     break;
                 }
-                o_peek = self.oracle_pegged_iter.next()
+                self.oracle_pegged_iter.next();
+                o_peek = self.oracle_pegged_iter.peek();
             }
             o_peek
         } else {
-- 
2.43.0


From 261405cd7e050feab46325bd7b7916a2bda7e56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:24 +0000
Subject: [PATCH 2/3] fix: release the locked maker fee when a bid fills
 against its own account

A fixed price bid locks its maker fee when it is posted. Filling it against
an order of the same account charges no fee, but the locked amount was
neither charged nor returned and stayed locked for good.
---
 programs/openbook-v2/src/state/open_orders_account.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/openbook-v2/src/state/open_orders_account.rs b/programs/openbook-v2/src/state/open_orders_account.rs
index 81ad493..5d98b07 100644
--- a/programs/openbook-v2/src/state/open_orders_account.rs
+++ b/programs/openbook-v2/src/state/open_orders_account.rs
@@ -162,6 +162,10 @@ impl OpenOrdersAccount {
             locked_amount_above_fill_price = quote_to_free + maker_fees_to_free;
             fill.peg_limit
         } else {
+            if is_self_trade {
+                locked_maker_fees = market.maker_fees_floor(quote_native);
+                locked_amount_above_fill_price = locked_maker_fees;
+            }
             fill.price
         };
 
-- 
2.43.0


From e88f1a08a0df3cae07025acbde7d704d32494b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:55 +0000
Subject: [PATCH 3/3] fix: do not post a remainder that crosses an opposite
 order

When an incoming order ran out of quote, matching stopped with opposite orders
still within its limit, and lots left over from the fee head-room were then
posted. The book ended up crossed: for instance a bid at 7 next to a matchable
ask at 7. Keep looking at the next opposite order when the quote is used up, and
never post beside a partly filled one.
---
 programs/openbook-v2/src/state/orderbook/book.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/book.rs b/programs/openbook-v2/src/state/orderbook/book.rs
index 1c65b2f..9c6fb92 100644
--- a/programs/openbook-v2/src/state/orderbook/book.rs
+++ b/programs/openbook-v2/src/state/orderbook/book.rs
@@ -123,7 +123,7 @@ impl<'a> Orderbook<'a> {
         let opposing_bookside = self.bookside_mut(other_side);
         for best_opposing in opposing_bookside.iter_all_including_invalid(now_ts, oracle_price_lots)
         {
-            if remaining_base_lots == 0 || remaining_quote_lots == 0 {
+            if remaining_base_lots == 0 {
                 break;
             }
 
@@ -222,6 +222,8 @@ impl<'a> Orderbook<'a> {
                 matched_order_deletes
                     .push((best_opposing.handle.order_tree, best_opposing.node.key));
             } else {
+                // Do not post next to the rest of the opposing order
+                post_target = None;
                 matched_order_changes.push((best_opposing.handle, new_best_opposing_quantity));
             }
 
-- 
2.43.0

