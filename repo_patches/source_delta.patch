From 55577f08b3ab1aeb4c8817f78746c36d144e4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:56 +0000
Subject: [PATCH 1/2] fix: refuse to wrap tokens out of the escrow itself

A transfer from the escrow to itself moves nothing, but the program minted
wrapped tokens for it. The permanent delegate of a Token-2022 mint can
authorize such a transfer.
---
 program/src/processor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/program/src/processor.rs b/program/src/processor.rs
index c0a41c8..baa1999 100644
--- a/program/src/processor.rs
+++ b/program/src/processor.rs
@@ -248,6 +248,11 @@ pub fn process_wrap(accounts: &[AccountInfo], amount: u64) -> ProgramResult {
         }
     }
 
+    // A transfer from the escrow to itself adds nothing to back the minted tokens
+    if unwrapped_token_account.key == unwrapped_escrow.key {
+        Err(ProgramError::InvalidArgument)?
+    }
+
     // Transfer unwrapped tokens from user to escrow
 
     let unwrapped_mint_data = unwrapped_mint.try_borrow_data()?;
-- 
2.43.0


From b485af4b0760c8e661b94379a314cab9f1ca8990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:34 +0000
Subject: [PATCH 2/2] fix: carry a verified collection to Metaplex as
 unverified

---
 program/src/metaplex.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/program/src/metaplex.rs b/program/src/metaplex.rs
index 60d3dd4..ae94944 100644
--- a/program/src/metaplex.rs
+++ b/program/src/metaplex.rs
@@ -140,9 +140,12 @@ pub fn token_2022_metadata_to_metaplex(
                     .map_err(|_| ProgramError::InvalidAccountData)?;
             }
             "collection" => {
-                collection = Some(
-                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?,
-                );
+                let mut deserialized_collection: MetaplexCollection =
+                    serde_json::from_str(value).map_err(|_| ProgramError::InvalidAccountData)?;
+                // Likewise, only the collection's authority can verify membership, and
+                // `Metaplex` rejects a collection passed in as already verified.
+                deserialized_collection.verified = false;
+                collection = Some(deserialized_collection);
             }
             "uses" => {
                 uses = Some(
-- 
2.43.0

