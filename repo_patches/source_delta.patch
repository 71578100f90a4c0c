From a342a6e69fd6f50073c1016bc8f4911e7dc981d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 1/2] fix: match reported seal definitions to the cells they
 are reported for

Reported seals were compared with the authorization tokens of an operation as
sets, so a seal of one cell could be reported for another cell of the same
operation, and used to spend it.
---
 src/verify.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index 350954c..6cafbf0 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -181,9 +181,17 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
                 .values()
                 .map(|seal| seal.auth_token())
                 .collect::<BTreeSet<_>>();
-            // It is a subset and not an equal set since some seals might be unknown to us:
-            // we know their commitment auth token but do not know the definition.
-            if !reported.is_subset(&defined) {
+            // Not every cell has to have a seal reported, since some seals might be unknown to us:
+            // we know their commitment auth token but do not know the definition. Yet, each reported
+            // seal must match the very cell for which it is reported.
+            let matching = block.defined_seals.iter().all(|(pos, seal)| {
+                block
+                    .operation
+                    .destructible_out
+                    .get(*pos as usize)
+                    .is_some_and(|cell| cell.auth == seal.auth_token())
+            });
+            if !matching {
                 let sources = block
                     .defined_seals
                     .iter()
-- 
2.43.0


From 1361f722ce0efe6edab79a0fd28a368407ad07a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:03 +0000
Subject: [PATCH 2/2] fix: cover unsized contract types by the blanket
 verification procedure

The blanket implementation applied to sized types only, so a client could
implement ContractVerify by hand for an unsized type of its own.
---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 6cafbf0..9989029 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -266,7 +266,7 @@ pub trait ContractVerify<Seal: RgbSeal>: ContractApi<Seal> {
     }
 }
 
-impl<Seal: RgbSeal, C: ContractApi<Seal>> ContractVerify<Seal> for C {}
+impl<Seal: RgbSeal, C: ContractApi<Seal> + ?Sized> ContractVerify<Seal> for C {}
 
 /// Errors returned from the verification.
 #[derive(Display, Error, From)]
-- 
2.43.0

