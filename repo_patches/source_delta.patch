From e0c0a81a56a949f4e071e012de43019c9480ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 01/20] fix: do not treat a reset slot ahead of the clock as an
 elapsed window

---
 state/src/action/sol_recurring_destination_limit.rs   | 4 +++-
 state/src/action/token_recurring_destination_limit.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/state/src/action/sol_recurring_destination_limit.rs b/state/src/action/sol_recurring_destination_limit.rs
index 8a3fade..dd84b7d 100644
--- a/state/src/action/sol_recurring_destination_limit.rs
+++ b/state/src/action/sol_recurring_destination_limit.rs
@@ -49,7 +49,9 @@ impl SolRecurringDestinationLimit {
     pub fn run(&mut self, lamport_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && lamport_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && lamport_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
diff --git a/state/src/action/token_recurring_destination_limit.rs b/state/src/action/token_recurring_destination_limit.rs
index a3639aa..9f97b62 100644
--- a/state/src/action/token_recurring_destination_limit.rs
+++ b/state/src/action/token_recurring_destination_limit.rs
@@ -54,7 +54,9 @@ impl TokenRecurringDestinationLimit {
     pub fn run(&mut self, token_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && token_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window
+            && token_diff <= self.recurring_amount
+        {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
-- 
2.43.0


From f6ba1221b7da5a60c1c72901cc55f0402c173fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 02/20] fix: check length and window before accepting recurring
 limit records

---
 state/src/action/sol_recurring_limit.rs   | 11 ++++++-----
 state/src/action/stake_recurring_limit.rs | 11 ++++++-----
 state/src/action/token_recurring_limit.rs |  7 ++++++-
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/state/src/action/sol_recurring_limit.rs b/state/src/action/sol_recurring_limit.rs
index 5ef62b3..2f737d5 100644
--- a/state/src/action/sol_recurring_limit.rs
+++ b/state/src/action/sol_recurring_limit.rs
@@ -77,15 +77,16 @@ impl<'a> Actionable<'a> for SolRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        // window needs to be non-zero (the reset computation divides by it)
+        let window = &data[8..16];
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8] && window != &[0u8; 8])
     }
 }
diff --git a/state/src/action/stake_recurring_limit.rs b/state/src/action/stake_recurring_limit.rs
index 055c6da..e0444f2 100644
--- a/state/src/action/stake_recurring_limit.rs
+++ b/state/src/action/stake_recurring_limit.rs
@@ -79,15 +79,16 @@ impl<'a> Actionable<'a> for StakeRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
         // last reset needs to be 0
         let last_reset = &data[16..24];
-        Ok(
-            current_amount == recurring_amount
-                && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
-        )
+        // window needs to be non-zero (the reset computation divides by it)
+        let window = &data[8..16];
+        Ok(current_amount == recurring_amount && last_reset == &[0u8; 8] && window != &[0u8; 8])
     }
 }
diff --git a/state/src/action/token_recurring_limit.rs b/state/src/action/token_recurring_limit.rs
index 14810c0..baf1408 100644
--- a/state/src/action/token_recurring_limit.rs
+++ b/state/src/action/token_recurring_limit.rs
@@ -87,11 +87,16 @@ impl<'a> Actionable<'a> for TokenRecurringLimit {
     }
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
         // current amount needs to be equal to limit
         let current = &data[48..56];
         let limit = &data[40..48];
         // last reset needs to be 0
         let last_reset = &data[56..64];
-        Ok(current == limit && last_reset == &[0u8; 8] && data.len() == Self::LEN)
+        // window needs to be non-zero (the reset computation divides by it)
+        let window = &data[32..40];
+        Ok(current == limit && last_reset == &[0u8; 8] && window != &[0u8; 8])
     }
 }
-- 
2.43.0


From fa8d093e1cc025da13c87c00e7552d6102da63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 03/20] fix: refuse recurring program scopes with a zero window

---
 state/src/action/program_scope.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/state/src/action/program_scope.rs b/state/src/action/program_scope.rs
index 8e1a5a7..f8e85b1 100644
--- a/state/src/action/program_scope.rs
+++ b/state/src/action/program_scope.rs
@@ -431,4 +431,14 @@ impl<'a> Actionable<'a> for ProgramScope {
     fn match_data(&self, data: &[u8]) -> bool {
         data.len() >= 32 && data[0..32] == self.target_account
     }
+
+    /// A recurring scope needs a non-zero window: the reset computation in
+    /// [`ProgramScope::run`] divides by it.
+    fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
+        let recurring = data[112] == ProgramScopeType::RecurringLimit as u8;
+        Ok(!recurring || data[32..40] != [0u8; 8])
+    }
 }
-- 
2.43.0


From cd70b4a75fb5b02c45896d8055115518649ce11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 04/20] fix: refuse balance fields whose start lies after their
 end

---
 state/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/state/src/util.rs b/state/src/util.rs
index 53d5555..4ac5219 100644
--- a/state/src/util.rs
+++ b/state/src/util.rs
@@ -27,7 +27,7 @@
 #[macro_export]
 macro_rules! read_numeric_field {
     ($data:expr, $start:expr, $end:expr, $type:ty, $width:expr, $error:expr) => {{
-        if $end - $start != $width {
+        if $end < $start || $end - $start != $width {
             return Err($error);
         }
 
-- 
2.43.0


From 91d10ebbe5685737a88d57d608f78eb524b5e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 05/20] fix: look up actions after their headers and by their
 stored length

---
 state/src/action/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/state/src/action/mod.rs b/state/src/action/mod.rs
index d86f2e5..b3020f6 100644
--- a/state/src/action/mod.rs
+++ b/state/src/action/mod.rs
@@ -353,13 +353,19 @@ impl ActionLoader {
         let mut cursor = 0;
 
         while cursor < bytes.len() {
-            let action = unsafe { Action::load_unchecked(&bytes[cursor..cursor + Action::LEN])? };
+            let data_start = cursor + Action::LEN;
+            let header = bytes
+                .get(cursor..data_start)
+                .ok_or(ProgramError::InvalidInstructionData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
+            let data_end = data_start + action.length() as usize;
+            let data = bytes
+                .get(data_start..data_end)
+                .ok_or(ProgramError::InvalidInstructionData)?;
             if action.permission() == Ok(T::TYPE) {
-                return Ok(Some(unsafe {
-                    T::load_unchecked(&bytes[cursor..cursor + action.length() as usize])?
-                }));
+                return Ok(Some(unsafe { T::load_unchecked(data)? }));
             }
-            cursor = action.boundary() as usize;
+            cursor = data_end;
         }
         Ok(None)
     }
-- 
2.43.0


From 2f09270f6cb7ce7e9322d62ea4d1033acd6a79f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 06/20] fix: start newly created session authorities without an
 active session

---
 state/src/authority/ed25519.rs   | 1 +
 state/src/authority/secp256k1.rs | 1 +
 state/src/authority/secp256r1.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/state/src/authority/ed25519.rs b/state/src/authority/ed25519.rs
index 286f8e2..73084d8 100644
--- a/state/src/authority/ed25519.rs
+++ b/state/src/authority/ed25519.rs
@@ -218,6 +218,7 @@ impl Authority for Ed25519SessionAuthority {
         authority.public_key = create.public_key;
         authority.session_key = create.session_key;
         authority.max_session_length = create.max_session_length;
+        authority.current_session_expiration = 0;
         Ok(())
     }
 }
diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 7200c55..06a20ce 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -231,6 +231,7 @@ impl Authority for Secp256k1SessionAuthority {
         authority.signature_odometer = 0;
         authority.session_key = create.session_key;
         authority.max_session_age = create.max_session_length;
+        authority.current_session_expiration = 0;
         Ok(())
     }
 }
diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 2b30522..8cd3ba5 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -264,6 +264,7 @@ impl Authority for Secp256r1SessionAuthority {
         authority.signature_odometer = 0;
         authority.session_key = create.session_key;
         authority.max_session_age = create.max_session_length;
+        authority.current_session_expiration = 0;
         Ok(())
     }
 }
-- 
2.43.0


From 656eb67077dc68b5163672fd1727640c540ae502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 07/20] fix: refuse session durations that overflow the expiry
 slot

---
 state/src/authority/ed25519.rs             | 4 +++-
 state/src/authority/programexec/session.rs | 4 +++-
 state/src/authority/secp256k1.rs           | 4 +++-
 state/src/authority/secp256r1.rs           | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/state/src/authority/ed25519.rs b/state/src/authority/ed25519.rs
index 73084d8..4625258 100644
--- a/state/src/authority/ed25519.rs
+++ b/state/src/authority/ed25519.rs
@@ -261,7 +261,9 @@ impl AuthorityInfo for Ed25519SessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/programexec/session.rs b/state/src/authority/programexec/session.rs
index 6f3e5dc..0794b52 100644
--- a/state/src/authority/programexec/session.rs
+++ b/state/src/authority/programexec/session.rs
@@ -221,7 +221,9 @@ impl AuthorityInfo for ProgramExecSessionAuthority {
         if duration > self.max_session_length {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 06a20ce..095ab63 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -318,7 +318,9 @@ impl AuthorityInfo for Secp256k1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
diff --git a/state/src/authority/secp256r1.rs b/state/src/authority/secp256r1.rs
index 8cd3ba5..216743e 100644
--- a/state/src/authority/secp256r1.rs
+++ b/state/src/authority/secp256r1.rs
@@ -349,7 +349,9 @@ impl AuthorityInfo for Secp256r1SessionAuthority {
         if duration > self.max_session_age {
             return Err(SwigAuthenticateError::InvalidSessionDuration.into());
         }
-        self.current_session_expiration = current_slot + duration;
+        self.current_session_expiration = current_slot
+            .checked_add(duration)
+            .ok_or(SwigAuthenticateError::InvalidSessionDuration)?;
         self.session_key = session_key;
         Ok(())
     }
-- 
2.43.0


From e2011235871d3d3a4d37fbdec8bf255d2c41b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 08/20] fix: refuse empty payloads in secp256k1 session
 authentication

---
 state/src/authority/secp256k1.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/state/src/authority/secp256k1.rs b/state/src/authority/secp256k1.rs
index 095ab63..9ee3820 100644
--- a/state/src/authority/secp256k1.rs
+++ b/state/src/authority/secp256k1.rs
@@ -299,6 +299,9 @@ impl AuthorityInfo for Secp256k1SessionAuthority {
         _data_payload: &[u8],
         slot: u64,
     ) -> Result<(), ProgramError> {
+        if authority_payload.is_empty() {
+            return Err(SwigAuthenticateError::InvalidAuthorityPayload.into());
+        }
         if slot > self.current_session_expiration {
             return Err(SwigAuthenticateError::PermissionDeniedSessionExpired.into());
         }
-- 
2.43.0


From 2ce8f52ac6bbb6ce555942e0adf6aba7ffca7d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 09/20] fix: compare byte strings only when both have the
 stated length

---
 assertions/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/assertions/src/lib.rs b/assertions/src/lib.rs
index 2a463af..b817073 100644
--- a/assertions/src/lib.rs
+++ b/assertions/src/lib.rs
@@ -17,6 +17,9 @@ use std::mem::MaybeUninit;
 #[inline(always)]
 #[cfg(target_os = "solana")]
 pub fn sol_assert_bytes_eq(left: &[u8], right: &[u8], len: usize) -> bool {
+    if left.len() != len || right.len() != len {
+        return false;
+    }
     unsafe {
         let mut result = MaybeUninit::<i32>::uninit();
         sol_memcmp_(
@@ -31,7 +34,7 @@ pub fn sol_assert_bytes_eq(left: &[u8], right: &[u8], len: usize) -> bool {
 
 #[cfg(not(target_os = "solana"))]
 pub fn sol_assert_bytes_eq(left: &[u8], right: &[u8], len: usize) -> bool {
-    (left.len() == len || right.len() != len) && right == left
+    left.len() == len && right.len() == len && right == left
 }
 
 macro_rules! sol_assert {
-- 
2.43.0


From e306e7f36dfc03aba942083ac26c029b063943f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 10/20] fix: count the accounts, not the data bytes, of the
 instruction that authorizes a program-exec authority

---
 state/src/authority/programexec/mod.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..611890a 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -293,15 +293,6 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
-        return Err(
-            SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
-        );
-    }
-
     // Verify the instruction is calling the expected program
     if !sol_assert_bytes_eq(preceding_ix.get_program_id(), expected_program_id, 32) {
         return Err(SwigAuthenticateError::PermissionDeniedProgramExecInvalidProgram.into());
@@ -327,8 +318,12 @@ pub fn program_exec_authenticate(
 
     // Verify the first two accounts of the preceding instruction are config and
     // wallet Get account meta at index 0 (should be config)
-    let account_0 = unsafe { preceding_ix.get_account_meta_at_unchecked(0) };
-    let account_1 = unsafe { preceding_ix.get_account_meta_at_unchecked(1) };
+    let account_0 = preceding_ix
+        .get_account_meta_at(0)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData)?;
+    let account_1 = preceding_ix
+        .get_account_meta_at(1)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData)?;
 
     // Verify the accounts match the config and wallet keys
     if !sol_assert_bytes_eq(account_0.key.as_ref(), config_account.key(), 32) {
-- 
2.43.0


From a0fcee15c71d939a9926c6c5aebe12e329b6b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 11/20] fix: give program-exec session creation data its full
 declared length

---
 state/src/authority/programexec/session.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/state/src/authority/programexec/session.rs b/state/src/authority/programexec/session.rs
index 0794b52..daf296b 100644
--- a/state/src/authority/programexec/session.rs
+++ b/state/src/authority/programexec/session.rs
@@ -29,6 +29,8 @@ pub struct CreateProgramExecSessionAuthority {
     pub session_key: [u8; 32],
     /// Maximum duration a session can be valid for
     pub max_session_length: u64,
+    /// Reserved; keeps the creation data as long as the stored authority
+    _reserved: [u8; 8],
 }
 
 impl CreateProgramExecSessionAuthority {
@@ -54,12 +56,13 @@ impl CreateProgramExecSessionAuthority {
             _padding: [0; 7],
             session_key,
             max_session_length,
+            _reserved: [0; 8],
         }
     }
 }
 
 impl Transmutable for CreateProgramExecSessionAuthority {
-    const LEN: usize = core::mem::size_of::<ProgramExecSessionAuthority>();
+    const LEN: usize = core::mem::size_of::<Self>();
 }
 
 impl IntoBytes for CreateProgramExecSessionAuthority {
-- 
2.43.0


From 00d1399c9c03a918e6e73530fe25cba4f093ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 12/20] fix: refuse sub-account permissions whose enabled flag
 is not a bool

---
 state/src/action/sub_account.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/state/src/action/sub_account.rs b/state/src/action/sub_account.rs
index 78c0371..bc19d9b 100644
--- a/state/src/action/sub_account.rs
+++ b/state/src/action/sub_account.rs
@@ -121,8 +121,9 @@ impl<'a> Actionable<'a> for SubAccount {
     /// * `Ok(false)` - If the data is invalid
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
         if data.len() == Self::LEN {
-            // Check that the sub_account field (first 32 bytes) is zeroed
-            Ok(data[0..32] == [0u8; 32])
+            // Check that the sub_account field (first 32 bytes) is zeroed and that
+            // the enabled flag is a valid bool
+            Ok(data[0..32] == [0u8; 32] && data[33] <= 1)
         } else {
             Ok(false)
         }
-- 
2.43.0


From 5f2f7553f070f5c164cb9d1efbac1ed498f74b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 13/20] fix: refuse toggle requests whose enabled flag is not a
 bool

---
 program/src/actions/toggle_sub_account_v1.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/program/src/actions/toggle_sub_account_v1.rs b/program/src/actions/toggle_sub_account_v1.rs
index 79c2d67..4973d6a 100644
--- a/program/src/actions/toggle_sub_account_v1.rs
+++ b/program/src/actions/toggle_sub_account_v1.rs
@@ -102,6 +102,11 @@ impl<'a> ToggleSubAccountV1<'a> {
         // Split the data into args and the rest (authority payload)
         let (args_data, authority_payload) = data.split_at(ToggleSubAccountV1Args::LEN);
 
+        // Any other byte would make the view below hold an invalid bool
+        if args_data[core::mem::offset_of!(ToggleSubAccountV1Args, enabled)] > 1 {
+            return Err(ProgramError::InvalidInstructionData);
+        }
+
         let args = unsafe { ToggleSubAccountV1Args::load_unchecked(args_data)? };
 
         Ok(Self {
-- 
2.43.0


From 21b9b7dbfd30390136e48a1a5388c0685d1eff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 14/20] fix: own the metadata of parsed inner instructions and
 refuse too many accounts

---
 instructions/src/lib.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..dbd9201 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: Vec<usize>,
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -150,7 +150,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: &self.accounts,
             data: self.data,
         }
     }
@@ -283,24 +283,25 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        if num_accounts > MAX_ACCOUNTS {
+            return Err(InstructionError::MissingAccountInfo);
+        }
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
+        let mut indexes = Vec::with_capacity(num_accounts);
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
+        for _ in 0..num_accounts {
             let (pubkey_index, cursor) = self.read_u8()?;
             self.cursor = cursor;
             let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+            indexes.push(pubkey_index as usize);
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +318,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
-- 
2.43.0


From 8700014bfa63a12629c42e358c8a3c830e47a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 15/20] fix: read the inner data length without assuming
 alignment

---
 instructions/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index dbd9201..b387985 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -351,7 +351,7 @@ where
             return Err(InstructionError::MissingData);
         }
         let value_bytes = unsafe { self.data.get_unchecked(self.cursor..end) };
-        let value = unsafe { *(value_bytes.as_ptr() as *const u16) };
+        let value = unsafe { core::ptr::read_unaligned(value_bytes.as_ptr() as *const u16) };
         Ok((value, end))
     }
 
-- 
2.43.0


From 999907996eb8819029a970c9cbbe230d098f8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 16/20] fix: check balances and account count before moving
 lamports directly

---
 instructions/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index b387985..42d9657 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -64,6 +64,7 @@ impl<'a> InstructionHolder<'a> {
     ) -> ProgramResult {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
+            && self.accounts.len() >= 2
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
             && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
         {
@@ -95,8 +96,16 @@ impl<'a> InstructionHolder<'a> {
                     let account1 = all_accounts.get_unchecked(*index);
                     let account2 = all_accounts.get_unchecked(*index2);
 
-                    *account1.borrow_mut_lamports_unchecked() -= amount;
-                    *account2.borrow_mut_lamports_unchecked() += amount;
+                    let remaining = account1
+                        .lamports()
+                        .checked_sub(amount)
+                        .ok_or(ProgramError::InsufficientFunds)?;
+                    *account1.borrow_mut_lamports_unchecked() = remaining;
+                    let received = account2
+                        .lamports()
+                        .checked_add(amount)
+                        .ok_or(ProgramError::ArithmeticOverflow)?;
+                    *account2.borrow_mut_lamports_unchecked() = received;
                 }
             }
         } else {
-- 
2.43.0


From 498f0198002d5ea304d1645e167ab33c6d2eb2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 17/20] fix: migration refuses a wallet that is already in the
 new format

The already-migrated guard required the eight bytes at 40 to be zero and the
byte at 40 to be non-zero, so it never fired. Migrating twice reset the
sub-account counter (handing out ids that exist already) and let the caller
rebind the wallet address to another bump.
---
 program/src/actions/migrate_to_wallet_address_v1.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..3c5d355 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -25,6 +25,7 @@ use crate::{
         accounts::{Context, MigrateToWalletAddressV1Accounts},
         SwigInstruction,
     },
+    is_swig_v2,
 };
 
 /// Arguments for migrating a Swig account to wallet address feature.
@@ -157,17 +158,15 @@ pub fn migrate_to_wallet_address_v1(
             return Err(SwigError::InvalidSwigAccountDiscriminator.into());
         }
 
-        // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
-        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
-
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        // Check if this account is already migrated: running the migration again
+        // would reset the sub-account counter and could rebind the wallet address.
+        if unsafe { is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
 
+        let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
+
         (
             old_swig.id,
             old_swig.bump,
-- 
2.43.0


From e80d341a72a8bb41240eab5fc3e849a246443e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 18/20] fix: migration checks that the wallet account is owned
 by the program

Every other handler does; here roles and permissions were read from an account
of any owner.
---
 program/src/actions/migrate_to_wallet_address_v1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index 3c5d355..36bb72c 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -12,7 +12,7 @@ use pinocchio::{
     sysvars::{clock::Clock, rent::Rent, Sysvar},
     ProgramResult,
 };
-use swig_assertions::{check_self_pda, check_system_owner, check_zero_data};
+use swig_assertions::{check_self_owned, check_self_pda, check_system_owner, check_zero_data};
 use swig_state::{
     action::{all::All, manage_authority::ManageAuthority},
     swig::{swig_wallet_address_seeds_with_bump, Swig},
@@ -144,6 +144,8 @@ pub fn migrate_to_wallet_address_v1(
     migrate_data: &[u8],
     all_accounts: &[AccountInfo],
 ) -> ProgramResult {
+    check_self_owned(ctx.accounts.swig, SwigError::OwnerMismatchSwigAccount)?;
+
     let migrate = MigrateToWalletAddressV1::from_instruction_bytes(migrate_data)?;
 
     let (old_swig_id, old_swig_bump, old_swig_roles, old_swig_role_counter) = {
-- 
2.43.0


From 136fc840fc5b4330ca93ded05376375581cf2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:00 +0000
Subject: [PATCH 19/20] fix: asset transfer refuses every wallet in the legacy
 format

wallet_bump != 0 alone is not a version test: in the legacy format that byte is
the low byte of reserved_lamports, so assets could be moved to the address of
that accidental bump.
---
 program/src/actions/transfer_assets_v1.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/program/src/actions/transfer_assets_v1.rs b/program/src/actions/transfer_assets_v1.rs
index b994e58..53e2848 100644
--- a/program/src/actions/transfer_assets_v1.rs
+++ b/program/src/actions/transfer_assets_v1.rs
@@ -136,15 +136,13 @@ pub fn transfer_assets_v1(
     if swig_account_data[0] != Discriminator::SwigConfigAccount as u8 {
         return Err(SwigError::InvalidSwigAccountDiscriminator.into());
     }
+    // Ensure this is a migrated swig account (has wallet_bump)
+    crate::require_swig_v2(swig_account_data)?;
+
     let parts = Swig::split_parts_mut(swig_account_data)?;
     let swig = parts.state;
     let swig_roles = parts.roles;
 
-    // Ensure this is a migrated swig account (has wallet_bump)
-    if swig.wallet_bump == 0 {
-        return Err(SwigError::InvalidSwigCreateInstructionDataTooShort.into());
-    }
-
     // Verify swig wallet address derivation using PDA check
     check_self_pda(
         &swig_wallet_address_seeds_with_bump(ctx.accounts.swig.key().as_ref(), &[swig.wallet_bump]),
-- 
2.43.0


From 10d3c64367be76936c4cbf627e33d7a9375e35a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:38 +0000
Subject: [PATCH 20/20] fix: check the destination token account's length
 before reading its owner in V1 sub-account withdrawal

---
 program/src/actions/withdraw_from_sub_account_v1.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/program/src/actions/withdraw_from_sub_account_v1.rs b/program/src/actions/withdraw_from_sub_account_v1.rs
index 38dc055..e9b9cf3 100644
--- a/program/src/actions/withdraw_from_sub_account_v1.rs
+++ b/program/src/actions/withdraw_from_sub_account_v1.rs
@@ -260,7 +260,9 @@ pub fn withdraw_from_sub_account_v1(
 
         let swig_token_account = &all_accounts[action_accounts_index + 3];
         let swig_token_account_data = unsafe { swig_token_account.borrow_data_unchecked() };
-        let swig_token_account_owner = unsafe { swig_token_account_data.get_unchecked(32..64) };
+        let swig_token_account_owner = swig_token_account_data
+            .get(32..64)
+            .ok_or(SwigError::InvalidSwigTokenAccountOwner)?;
         if unsafe {
             sol_memcmp(
                 ctx.accounts.swig_wallet_address.key(),
-- 
2.43.0

