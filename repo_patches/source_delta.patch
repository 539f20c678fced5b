From ae562252069eb251d5e3cc2df68582e2262c05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 1/2] fix: end the iteration of edges after a difference in
 amount of edges

After giving the difference, `EdgesIter` did not advance, and so the subsequent check for
whether there is another element, by the queue and stack recursion modes, called
`Node::get_edge` a third time for the same index, contrary to the documented "up to twice
for each index".
---
 src/generic.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generic.rs b/src/generic.rs
index 549fbd1..8c3f64f 100644
--- a/src/generic.rs
+++ b/src/generic.rs
@@ -351,8 +351,18 @@ mod edges_iter
                         }
                         None
                     },
-                    [None, Some(_)] => Some(Err(N::Cmp::from_ord(Ordering::Less))),
-                    [Some(_), None] => Some(Err(N::Cmp::from_ord(Ordering::Greater))),
+                    [None, Some(_)] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Less)))
+                    },
+                    [Some(_), None] => {
+                        if advance {
+                            self.next_index = None;
+                        }
+                        Some(Err(N::Cmp::from_ord(Ordering::Greater)))
+                    },
                 }
             }
             else {
-- 
2.43.0


From a600852706a3ad98ac66da134e4679d67903c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 2/2] fix: derive a slow limit of at least 1 from small
 precheck limits

---
 src/cycle_safe.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cycle_safe.rs b/src/cycle_safe.rs
index 3a9bf25..c09631f 100644
--- a/src/cycle_safe.rs
+++ b/src/cycle_safe.rs
@@ -137,9 +137,13 @@ pub mod modes
             /// before switching to the "slow" phase.
             const FAST_LIMIT_MAX: u16 = 2 * Self::PRECHECK_LIMIT;
             /// How many nodes, consecutively, that have not already been seen, are traversed by
-            /// the "slow" phase before switching to the "fast" phase.
+            /// the "slow" phase before switching to the "fast" phase.  Must be at least `1`, for
+            /// cyclic graphs to be handled, which the derived default value always is.
             #[allow(clippy::integer_division)]
-            const SLOW_LIMIT: u16 = Self::PRECHECK_LIMIT / 10;
+            const SLOW_LIMIT: u16 = match Self::PRECHECK_LIMIT / 10 {
+                0 => 1,
+                limit => limit,
+            };
 
             /// Type of node that is recorded as equivalent in the [`Self::Table`].  Must be the
             /// same as used with the corresponding [`equiv::Params`].
-- 
2.43.0

