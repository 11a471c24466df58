From 2942e33296f1b0afd0939ceb1123933ab669603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH] fix: match disclosed seals with the cells they are disclosed
 for

A set of auth tokens of the reported seals was checked to be a subset of the
tokens of all the operation cells, ignoring positions. Thus, a sender could
disclose a seal of its own for a cell belonging to somebody else and spend
that cell by closing its own seal.
---
 src/verify.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index 350954c..51248ce 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -181,9 +181,17 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
                 .values()
                 .map(|seal| seal.auth_token())
                 .collect::<BTreeSet<_>>();
-            // It is a subset and not an equal set since some seals might be unknown to us:
-            // we know their commitment auth token but do not know the definition.
-            if !reported.is_subset(&defined) {
+            // Some seals might be unknown to us: we know their commitment auth token but do not know the
+            // definition. However, each of the known ones must match the very cell it is reported for;
+            // otherwise the cell may be spent by closing a seal defined for some other cell.
+            let is_bound = block.defined_seals.iter().all(|(pos, seal)| {
+                block
+                    .operation
+                    .destructible_out
+                    .get(*pos as usize)
+                    .is_some_and(|cell| cell.auth == seal.auth_token())
+            });
+            if !is_bound {
                 let sources = block
                     .defined_seals
                     .iter()
-- 
2.43.0

