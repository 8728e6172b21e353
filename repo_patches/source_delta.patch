From f7e3d43a6c669bacb4f637f5d8cbe3feefde0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:46 +0000
Subject: [PATCH 01/28] fix: encode the logs of a failed deploy receipt

---
 crates/host/codec/src/receipt/deploy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 9c5e9fd..26a72ef 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -34,7 +34,7 @@ impl Codec for DeployReceipt {
             self.gas_used.encode(w);
             self.logs.encode(w);
         } else {
-            RuntimeFailure::new(self.error().clone(), vec![]).encode(w);
+            RuntimeFailure::new(self.error().clone(), self.logs.clone()).encode(w);
         };
     }
 
-- 
2.43.0


From c8aecfbdc1764689836b2f43cea03eeb6579a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:46 +0000
Subject: [PATCH 02/28] fix: a section preview is encoded to 6 bytes, not 8

---
 crates/host/codec/src/section/preview.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/section/preview.rs b/crates/host/codec/src/section/preview.rs
index 9def6cd..5c2209f 100644
--- a/crates/host/codec/src/section/preview.rs
+++ b/crates/host/codec/src/section/preview.rs
@@ -42,6 +42,6 @@ impl Codec for SectionPreview {
     }
 
     fn fixed_size() -> Option<usize> {
-        Some(8)
+        Some(6)
     }
 }
-- 
2.43.0


From f31c1ade7e842f87a97ae0a7c25c350853d0dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:53 +0000
Subject: [PATCH 03/28] fix: refuse to truncate a variable's byte size when
 encoding a layout

---
 crates/host/codec/src/section/sections/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index 1dcfb14..d87e495 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -100,7 +100,7 @@ impl Codec for Layout {
 
                     // Encoding each `Var Byte-Size`
                     for var in layout.iter() {
-                        (var.byte_size as u16).encode(w);
+                        u16::try_from(var.byte_size).unwrap().encode(w);
                     }
                 }
             }
-- 
2.43.0


From 78785eedd711e58e91b48018eca1b3c838558547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:05 +0000
Subject: [PATCH 04/28] fix: report a malformed receipt as a parse error
 instead of panicking

---
 crates/host/codec/src/receipt/error.rs | 122 ++++++++++++-------------
 crates/host/codec/src/receipt/mod.rs   |   2 +-
 crates/host/codec/src/receipt/spawn.rs |   2 +-
 3 files changed, 63 insertions(+), 63 deletions(-)

diff --git a/crates/host/codec/src/receipt/error.rs b/crates/host/codec/src/receipt/error.rs
index e8ea82b..7b3f7ce 100644
--- a/crates/host/codec/src/receipt/error.rs
+++ b/crates/host/codec/src/receipt/error.rs
@@ -162,22 +162,22 @@ impl Codec for RuntimeFailure {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> std::result::Result<Self, Self::Error> {
-        let ty = cursor.read_byte().unwrap();
-        let logs = <Vec<ReceiptLog>>::decode(cursor).unwrap();
+        let ty = cursor.read_byte()?;
+        let logs = <Vec<ReceiptLog>>::decode(cursor)?;
 
         let err = {
             match ty {
                 0 => oog(cursor),
-                1 => template_not_found(cursor),
-                2 => account_not_found(cursor),
-                3 => compilation_error(cursor),
-                4 => instantiation_error(cursor),
-                5 => func_not_found(cursor),
-                6 => func_failed(cursor),
-                7 => func_not_ctor(cursor),
-                8 => func_not_allowed(cursor),
-                9 => func_invalid_sig(cursor),
-                _ => unreachable!(),
+                1 => template_not_found(cursor)?,
+                2 => account_not_found(cursor)?,
+                3 => compilation_error(cursor)?,
+                4 => instantiation_error(cursor)?,
+                5 => func_not_found(cursor)?,
+                6 => func_failed(cursor)?,
+                7 => func_not_ctor(cursor)?,
+                8 => func_not_allowed(cursor)?,
+                9 => func_invalid_sig(cursor)?,
+                byte => return Err(ParseError::BadByte(byte)),
             }
         };
 
@@ -216,100 +216,100 @@ fn oog(_cursor: &mut impl ReadExt) -> RuntimeError {
     RuntimeError::OOG
 }
 
-fn template_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    RuntimeError::TemplateNotFound(template_addr)
+fn template_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    Ok(RuntimeError::TemplateNotFound(template_addr))
 }
 
-fn account_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let account = Address::decode(cursor).unwrap();
-    RuntimeError::AccountNotFound(account)
+fn account_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let account = Address::decode(cursor)?;
+    Ok(RuntimeError::AccountNotFound(account))
 }
 
-fn compilation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn compilation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::CompilationFailed {
+    Ok(RuntimeError::CompilationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn instantiation_error(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn instantiation_error(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::InstantiationFailed {
+    Ok(RuntimeError::InstantiationFailed {
         template: template_addr,
         target: account_addr,
         msg,
-    }
+    })
 }
 
-fn func_not_found(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_found(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotFound {
+    Ok(RuntimeError::FuncNotFound {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
-fn func_failed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_failed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncFailed {
+    Ok(RuntimeError::FuncFailed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_not_ctor(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_not_ctor(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncNotCtor {
+    Ok(RuntimeError::FuncNotCtor {
         template: template_addr,
         func,
-    }
+    })
 }
 
-fn func_not_allowed(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
-    let msg = String::decode(cursor).unwrap();
+fn func_not_allowed(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
+    let msg = String::decode(cursor)?;
 
-    RuntimeError::FuncNotAllowed {
+    Ok(RuntimeError::FuncNotAllowed {
         template: template_addr,
         target: account_addr,
         func,
         msg,
-    }
+    })
 }
 
-fn func_invalid_sig(cursor: &mut impl ReadExt) -> RuntimeError {
-    let template_addr = TemplateAddr::decode(cursor).unwrap();
-    let account_addr = Address::decode(cursor).unwrap();
-    let func = String::decode(cursor).unwrap();
+fn func_invalid_sig(cursor: &mut impl ReadExt) -> Result<RuntimeError, ParseError> {
+    let template_addr = TemplateAddr::decode(cursor)?;
+    let account_addr = Address::decode(cursor)?;
+    let func = String::decode(cursor)?;
 
-    RuntimeError::FuncInvalidSignature {
+    Ok(RuntimeError::FuncInvalidSignature {
         template: template_addr,
         target: account_addr,
         func,
-    }
+    })
 }
 
 #[cfg(test)]
diff --git a/crates/host/codec/src/receipt/mod.rs b/crates/host/codec/src/receipt/mod.rs
index d084b91..f7402a4 100644
--- a/crates/host/codec/src/receipt/mod.rs
+++ b/crates/host/codec/src/receipt/mod.rs
@@ -30,7 +30,7 @@ impl Codec for Receipt {
     }
 
     fn decode(cursor: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        Ok(match cursor.peek_byte().unwrap() {
+        Ok(match cursor.peek_byte().ok_or(ParseError::Eof)? {
             TY_DEPLOY => {
                 let receipt = DeployReceipt::decode(cursor)?;
                 Receipt::Deploy(receipt)
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index d96b5f7..a76fb61 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -88,7 +88,7 @@ impl Codec for SpawnReceipt {
                 logs,
             })
         } else {
-            let x = RuntimeFailure::decode(reader).unwrap();
+            let x = RuntimeFailure::decode(reader)?;
             Ok(SpawnReceipt::from_err(x.err, x.logs))
         }
     }
-- 
2.43.0


From c6dbe9a1d9f74b5d21516be836c442747d4c6041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:05 +0000
Subject: [PATCH 05/28] fix: reject a receipt of another type or version in
 release builds too

---
 crates/host/codec/src/receipt/call.rs   | 8 ++++++--
 crates/host/codec/src/receipt/deploy.rs | 8 ++++++--
 crates/host/codec/src/receipt/spawn.rs  | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/host/codec/src/receipt/call.rs b/crates/host/codec/src/receipt/call.rs
index 1582bea..bddc69d 100644
--- a/crates/host/codec/src/receipt/call.rs
+++ b/crates/host/codec/src/receipt/call.rs
@@ -60,10 +60,14 @@ impl Codec for CallReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, crate::receipt::TY_CALL);
+        if ty != crate::receipt::TY_CALL {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/deploy.rs b/crates/host/codec/src/receipt/deploy.rs
index 26a72ef..88f1b6a 100644
--- a/crates/host/codec/src/receipt/deploy.rs
+++ b/crates/host/codec/src/receipt/deploy.rs
@@ -40,10 +40,14 @@ impl Codec for DeployReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_DEPLOY);
+        if ty != TY_DEPLOY {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(version, 0);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
diff --git a/crates/host/codec/src/receipt/spawn.rs b/crates/host/codec/src/receipt/spawn.rs
index a76fb61..0b92ea7 100644
--- a/crates/host/codec/src/receipt/spawn.rs
+++ b/crates/host/codec/src/receipt/spawn.rs
@@ -61,10 +61,14 @@ impl Codec for SpawnReceipt {
 
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         let ty = reader.read_byte()?;
-        debug_assert_eq!(ty, TY_SPAWN);
+        if ty != TY_SPAWN {
+            return Err(ParseError::BadByte(ty));
+        }
 
         let version = u16::decode(reader)?;
-        debug_assert_eq!(0, version);
+        if version != 0 {
+            return Err(ParseError::Other);
+        }
 
         let is_success = bool::decode(reader)?;
 
-- 
2.43.0


From f4f17c432b9e91a44012e9f93ca9ffc292c0a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:06 +0000
Subject: [PATCH 06/28] fix: reject unknown gas modes and layout kinds instead
 of panicking

---
 crates/host/codec/src/section/sections/code.rs | 2 +-
 crates/host/codec/src/section/sections/data.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/section/sections/code.rs b/crates/host/codec/src/section/sections/code.rs
index db3d921..a4cb12e 100644
--- a/crates/host/codec/src/section/sections/code.rs
+++ b/crates/host/codec/src/section/sections/code.rs
@@ -70,7 +70,7 @@ impl Codec for GasMode {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u64::decode(reader)? {
             GAS_MODE_FIXED => Ok(GasMode::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
diff --git a/crates/host/codec/src/section/sections/data.rs b/crates/host/codec/src/section/sections/data.rs
index d87e495..9daa8b5 100644
--- a/crates/host/codec/src/section/sections/data.rs
+++ b/crates/host/codec/src/section/sections/data.rs
@@ -150,7 +150,7 @@ impl Codec for LayoutKind {
     fn decode(reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
         match u16::decode(reader)? {
             FIXED => Ok(LayoutKind::Fixed),
-            _ => unreachable!(),
+            _ => Err(ParseError::InvalidSection),
         }
     }
 }
-- 
2.43.0


From 55e16570597de038e80549c7476d25269603d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:06 +0000
Subject: [PATCH 07/28] fix: reject API and schema sections, which can't be
 decoded yet, instead of panicking

---
 crates/host/codec/src/section/sections/api.rs    | 3 ++-
 crates/host/codec/src/section/sections/schema.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/host/codec/src/section/sections/api.rs b/crates/host/codec/src/section/sections/api.rs
index 6c963d0..5304b6f 100644
--- a/crates/host/codec/src/section/sections/api.rs
+++ b/crates/host/codec/src/section/sections/api.rs
@@ -10,6 +10,7 @@ impl Codec for ApiSection {
     }
 
     fn decode(_cursor: &mut impl ReadExt) -> Result<Self, ParseError> {
-        todo!("will be implemented in a future PR...");
+        // Decoding will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
diff --git a/crates/host/codec/src/section/sections/schema.rs b/crates/host/codec/src/section/sections/schema.rs
index 96d69be..d7c6a55 100644
--- a/crates/host/codec/src/section/sections/schema.rs
+++ b/crates/host/codec/src/section/sections/schema.rs
@@ -29,7 +29,8 @@ impl Codec for SchemaSection {
     }
 
     fn decode(_reader: &mut impl ReadExt) -> Result<Self, Self::Error> {
-        todo!("will be implemented in a future PR...");
+        // Decoding will be implemented in a future PR...
+        Err(ParseError::InvalidSection)
     }
 }
 
-- 
2.43.0


From bcb02434146a36df937d58c517f54c9b938c22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:38 +0000
Subject: [PATCH 08/28] fix: transferring coins requires write access to the
 storage

---
 crates/host/runtime/src/vmcalls/transfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 2594f4a..c7f1f90 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -29,7 +29,7 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
     let dst_addr = read_addr(env, dst_addr_ptr).expect(NOT_FOUND_ERR);
 
     let mut borrow = env.borrow_mut();
-    let gs = borrow.storage().gs.clone();
+    let gs = borrow.storage_mut().gs.clone();
 
     let mut src_account = rt
         .block_on(AccountStorage::load(gs.clone(), &src_addr))
-- 
2.43.0


From e01b9f3f527a2fbb4157be97f3f6b2d28b8de2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:38 +0000
Subject: [PATCH 09/28] fix: a template can't transfer the coins of another
 account

---
 crates/host/runtime/src/vmcalls/transfer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index c7f1f90..4039974 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -15,7 +15,7 @@ fn read_addr(env: &FuncEnv, ptr: WasmPtr<Address>) -> Option<Address> {
 ///
 /// # Panics
 ///
-/// Panics when the destination account does not exist.
+/// Panics when the destination account does not exist, or when the source isn't the executing account.
 pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, amount: u64) {
     if amount == 0 {
         return;
@@ -28,6 +28,10 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
     let src_addr = read_addr(env, src_addr_ptr).expect(NOT_FOUND_ERR);
     let dst_addr = read_addr(env, dst_addr_ptr).expect(NOT_FOUND_ERR);
 
+    if src_addr != env.target_addr {
+        panic!("Only the coins of the executing account can be transferred")
+    }
+
     let mut borrow = env.borrow_mut();
     let gs = borrow.storage_mut().gs.clone();
 
-- 
2.43.0


From 85ec336470d0af37806101bf2c94899a112eb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:38 +0000
Subject: [PATCH 10/28] fix: a transfer neither mints coins when sent to
 oneself nor loses them on overflow

---
 crates/host/runtime/src/runtime/runtime.rs  | 13 +++++++++++--
 crates/host/runtime/src/vmcalls/transfer.rs | 13 +++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 53a8f9e..1fb4eb6 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -783,11 +783,20 @@ impl Runtime {
         if src_bal < amount {
             panic!("Not enough balance to execute transfer");
         }
+
+        // Transferring to itself leaves the balance as is.
+        if src_addr == dst_addr {
+            return;
+        }
+
+        let new_src_bal = src_bal.checked_sub(amount).unwrap();
+        let new_dst_bal = dst_bal.checked_add(amount).unwrap();
+
         self.tokio_rt
-            .block_on(src_account.set_balance(src_bal.checked_sub(amount).unwrap()))
+            .block_on(src_account.set_balance(new_src_bal))
             .unwrap();
         self.tokio_rt
-            .block_on(dst_account.set_balance(dst_bal.checked_add(amount).unwrap()))
+            .block_on(dst_account.set_balance(new_dst_bal))
             .unwrap();
     }
 }
diff --git a/crates/host/runtime/src/vmcalls/transfer.rs b/crates/host/runtime/src/vmcalls/transfer.rs
index 4039974..719df3a 100644
--- a/crates/host/runtime/src/vmcalls/transfer.rs
+++ b/crates/host/runtime/src/vmcalls/transfer.rs
@@ -48,10 +48,15 @@ pub fn svm_transfer(env: &FuncEnv, src_addr_offset: i32, dst_addr_offset: i32, a
         panic!("Not enough balance to execute transfer")
     }
 
-    rt.block_on(src_account.set_balance(src_balance - amount))
-        .unwrap();
-    rt.block_on(dst_account.set_balance(dst_balance.checked_add(amount).unwrap()))
-        .unwrap();
+    // Transferring to itself leaves the balance as is.
+    if src_addr != dst_addr {
+        let new_dst_balance = dst_balance.checked_add(amount).unwrap();
+
+        rt.block_on(src_account.set_balance(src_balance - amount))
+            .unwrap();
+        rt.block_on(dst_account.set_balance(new_dst_balance))
+            .unwrap();
+    }
 
     borrow.touch_account(src_addr);
     borrow.touch_account(dst_addr);
-- 
2.43.0


From 67d6427c67d2136da5b9955a95215b4cf025dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 11/28] fix: don't read values of incomplete layers

---
 crates/host/state/src/storage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 71a8ce3..0be806d 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -179,6 +179,8 @@ impl Storage {
                 SELECT "value"
                 FROM "values"
                 INNER JOIN "layers" ON
+                    "layers"."id" = "values"."layer_id"
+                    AND
                     "complete" = 1
                     AND
                     "key_hash" = ?1
@@ -200,6 +202,8 @@ impl Storage {
             SELECT "value"
             FROM "values"
             INNER JOIN "layers" ON
+                "layers"."id" = "values"."layer_id"
+                AND
                 "layer_id" <= ?1
                 AND
                 "complete" = 1
-- 
2.43.0


From bb46a44127695ed6e786b09cbda7f88fb0904e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 12/28] fix: reopen an existing database after its last
 complete layer

---
 crates/host/state/src/storage.rs | 60 +++++++++++++++-----------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 0be806d..c1913ea 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -68,22 +68,24 @@ impl Storage {
     async fn new_with_pool(sqlite: Pool<Sqlite>) -> Result<Self> {
         sqlx::query(SQL_SCHEMA).execute(&sqlite).await?;
 
-        let next_layer_id = max_layer_id(&sqlite).await?;
+        delete_bad_layers(&sqlite).await?;
+        let last_layer_id = max_layer_id(&sqlite).await?;
 
         let storage = Self {
             sqlite,
             dirty_changes: HashMap::new(),
             next_layer: NextLayer {
-                id: next_layer_id.unwrap_or(INITIAL_LAYER_ID + 1),
+                id: last_layer_id.unwrap_or(INITIAL_LAYER_ID) + 1,
                 changes: HashMap::new(),
                 changes_xor_fingerprint: INITIAL_LAYER_STATE,
             },
         };
-        storage
-            .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
-            .await?;
 
-        storage.delete_bad_layers().await?;
+        if last_layer_id.is_none() {
+            storage
+                .insert_layer(INITIAL_LAYER_ID, INITIAL_LAYER_STATE, true)
+                .await?;
+        }
 
         Ok(storage)
     }
@@ -99,31 +101,6 @@ impl Storage {
         Self::new_with_pool(sqlite).await
     }
 
-    async fn delete_bad_layers(&self) -> Result<u64> {
-        let count_rows: u64 = sqlx::query(
-            r#"
-            DELETE FROM "values"
-            WHERE "layer_id" IN (
-                SELECT "id"
-                FROM "layers"
-                WHERE "complete" = 0
-            )
-            "#,
-        )
-        .execute(&self.sqlite)
-        .await?
-        .rows_affected();
-
-        if count_rows > 0 {
-            tracing::warn!(
-                affected_rows = count_rows,
-                "Deleted invalid entries in the SQLite global state database."
-            );
-        }
-
-        Ok(count_rows)
-    }
-
     /// Returns the [`Layer`] and [`State`] of the last ever committed
     /// layer; i.e. persisted changes without dirty and saved changes.
     pub async fn last_layer(&self) -> Result<(i64, State)> {
@@ -390,6 +367,27 @@ impl Storage {
     }
 }
 
+async fn delete_bad_layers(pool: &SqlitePool) -> Result<u64> {
+    let count_rows: u64 = sqlx::query(
+        r#"
+        DELETE FROM "layers"
+        WHERE "complete" = 0
+        "#,
+    )
+    .execute(pool)
+    .await?
+    .rows_affected();
+
+    if count_rows > 0 {
+        tracing::warn!(
+            affected_rows = count_rows,
+            "Deleted invalid entries in the SQLite global state database."
+        );
+    }
+
+    Ok(count_rows)
+}
+
 async fn max_layer_id(pool: &SqlitePool) -> Result<Option<i64>> {
     let max_layer_id: Option<(i64,)> = sqlx::query_as(
         r#"
-- 
2.43.0


From 158d0e0b1f0011674de8544ffae6085f25207cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 13/28] fix: the fingerprint of a layer reflects the values it
 stores

---
 crates/host/state/src/storage.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index c1913ea..319b79f 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -23,11 +23,8 @@ pub use crate::error::{StorageError, StorageResult as Result};
 
 type Changes = HashMap<State, Vec<u8>>;
 
-// When initializing [`State`]'s on the database, we zero all bits. In
-// memory, however, the initial [`State`] is always filled with 1's (by
-// XOR-ing them together, we still get 0).
+// The fingerprint of an empty set of changes: XOR-ing it leaves a fingerprint as is.
 const STATE_ZEROS: State = State([0; 32]);
-const STATE_ONES: State = State([std::u8::MAX; 32]);
 
 const SQL_SCHEMA: &str = include_str!("resources/schema.sql");
 
@@ -222,12 +219,20 @@ impl Storage {
         let dirty_changes = std::mem::take(&mut self.dirty_changes);
 
         for change in dirty_changes {
+            // The overwritten value (if any) doesn't count anymore.
+            if let Some(old_value) = self.get_by_hash(&change.0, None).await? {
+                let xor = hash_key_value_pair(&change.0, &old_value);
+                xor_fingerprint(&mut fingerprint, &xor);
+            }
+
             let xor = hash_key_value_pair(&change.0, &change.1);
             xor_fingerprint(&mut fingerprint, &xor);
 
             self.next_layer.changes.insert(change.0, change.1);
         }
 
+        self.next_layer.changes_xor_fingerprint = fingerprint;
+
         Ok(())
     }
 
@@ -275,7 +280,7 @@ impl Storage {
         .await?;
 
         // Reset layer-specific information to default values.
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
         self.next_layer.id += 1;
 
         Ok((layer_id, fingerprint))
@@ -352,7 +357,7 @@ impl Storage {
         // We must now bring `self.next_layer` in a good state.
         self.next_layer.id = layer_id + 1;
         self.next_layer.changes.clear();
-        self.next_layer.changes_xor_fingerprint = STATE_ONES;
+        self.next_layer.changes_xor_fingerprint = STATE_ZEROS;
 
         Ok(())
     }
-- 
2.43.0


From 3d5a4c8ce6864044474deb85ca23062261864ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 14/28] fix: reading a variable honours the historical query
 parameter

---
 crates/host/state/src/account_storage.rs |  2 +-
 crates/host/state/src/global_state.rs    | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/host/state/src/account_storage.rs b/crates/host/state/src/account_storage.rs
index e310a74..6ed615f 100644
--- a/crates/host/state/src/account_storage.rs
+++ b/crates/host/state/src/account_storage.rs
@@ -133,7 +133,7 @@ impl AccountStorage {
             let bytes: [u8; SEGMENT_SIZE] = self
                 .gs
                 .storage()
-                .get(segment.key.as_bytes(), None)
+                .get(segment.key.as_bytes(), self.gs.query_layer_id())
                 .await?
                 .unwrap_or(vec![0; SEGMENT_SIZE])
                 .try_into()
diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index fbeb9c4..e4445fb 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -161,6 +161,11 @@ impl GlobalState {
     // GETTER/SETTER UTILITIES
     // -----------------------
 
+    /// The layer that read operations are restricted to, if any.
+    pub(crate) fn query_layer_id(&self) -> Option<i64> {
+        self.layer_query_parameter.map(|layer| layer.0 as i64)
+    }
+
     pub(crate) fn storage(&self) -> MutexGuard<Storage> {
         self.storage
             .lock()
@@ -173,10 +178,7 @@ impl GlobalState {
     {
         let bytes = self
             .storage()
-            .get(
-                key.as_bytes(),
-                self.layer_query_parameter.map(|layer| layer.0 as i64),
-            )
+            .get(key.as_bytes(), self.query_layer_id())
             .await?
             .ok_or(StorageError::NotFound {
                 key_hash: State(Blake3Hasher::hash(key.as_bytes())),
-- 
2.43.0


From 278b727349dc0ef8726e95dd32ffa63be17f84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 15/28] fix: a failed runtime creation doesn't make later calls
 of svm_init panic

---
 crates/host/runtime-ffi/src/c_api.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index 0b95840..de19d18 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -27,8 +27,10 @@ lazy_static! {
 #[must_use]
 #[no_mangle]
 pub extern "C" fn svm_init() -> svm_result_t {
-    *INITIALIZED.lock().unwrap() = true;
-    svm_result_t::OK
+    catch_unwind_or_fail(|| {
+        *INITIALIZED.lock().unwrap() = true;
+        svm_result_t::OK
+    })
 }
 
 /// Frees the memory allocated within the given [`svm_result_t`].
@@ -65,11 +67,9 @@ pub unsafe extern "C" fn svm_runtime_create(
     path_len: u32,
 ) -> svm_result_t {
     catch_unwind_or_fail(|| {
-        let mut initialized = INITIALIZED.lock().unwrap();
-        if !*initialized {
+        if !*INITIALIZED.lock().unwrap() {
             return svm_result_t::new_error(b"`svm_init` not called beforehand.");
         }
-        *initialized = true;
 
         let genesis = GenesisConfig::mainnet();
         let tokio_rt = TokioRuntime::new().unwrap();
-- 
2.43.0


From 7fe5d35740a6d6076f136c03f78513d5da7bae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 16/28] fix: svm_get_account fills in the address and reports a
 null pointer as an error

---
 crates/host/runtime-ffi/src/c_api.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index de19d18..b59d166 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -530,12 +530,14 @@ pub unsafe extern "C" fn svm_get_account(
     account_addr: *const u8,
     account: *mut svm_account,
 ) -> svm_result_t {
-    assert!(!account.is_null());
     catch_unwind_or_fail(|| {
+        assert!(!account.is_null());
+
         let runtime = get_runtime(runtime_ptr);
         let account_addr = Address::new(std::slice::from_raw_parts(account_addr, Address::N));
         let account_data = runtime.get_account(&account_addr).unwrap();
 
+        (*account).address.clone_from_slice(account_addr.as_slice());
         (*account).balance = account_data.0;
         (*account).counter_upper_bits = (account_data.1 >> 64) as u64;
         (*account).counter_lower_bits = account_data.1 as u64;
-- 
2.43.0


From 6d3396cae1920a18803a5fe32d9c0c6f8456e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 17/28] fix: destroying a runtime releases its resources

---
 crates/host/runtime-ffi/src/c_api.rs            | 12 +++++++-----
 crates/host/runtime-ffi/src/resource_tracker.rs |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/host/runtime-ffi/src/c_api.rs b/crates/host/runtime-ffi/src/c_api.rs
index b59d166..800ce07 100644
--- a/crates/host/runtime-ffi/src/c_api.rs
+++ b/crates/host/runtime-ffi/src/c_api.rs
@@ -115,11 +115,13 @@ pub unsafe extern "C" fn svm_runtime_create(
 #[must_use]
 #[no_mangle]
 pub extern "C" fn svm_runtime_destroy(runtime: *mut c_void) -> svm_result_t {
-    if RUNTIME_TRACKER.free(runtime).is_some() {
-        svm_result_t::OK
-    } else {
-        svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
-    }
+    catch_unwind_or_fail(|| {
+        if RUNTIME_TRACKER.free(runtime).is_some() {
+            svm_result_t::OK
+        } else {
+            svm_result_t::new_error(b"There are no allocated runtimes left to destroy!")
+        }
+    })
 }
 
 /// Returns the number of currently allocated runtimes.
diff --git a/crates/host/runtime-ffi/src/resource_tracker.rs b/crates/host/runtime-ffi/src/resource_tracker.rs
index 491e022..77fb6e5 100644
--- a/crates/host/runtime-ffi/src/resource_tracker.rs
+++ b/crates/host/runtime-ffi/src/resource_tracker.rs
@@ -39,6 +39,7 @@ impl<T> ResourceTracker<T> {
         let found = self.pointers.lock().unwrap().remove(&(ptr as usize));
 
         if found {
+            drop(unsafe { Box::<T>::from_raw(ptr.cast()) });
             Some(())
         } else {
             None
-- 
2.43.0


From 56d42a81e31d1c5f6f4e6e11ba8a9102f151e67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 18/28] fix: free the data of a result exactly once

---
 crates/host/runtime-ffi/src/result.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/host/runtime-ffi/src/result.rs b/crates/host/runtime-ffi/src/result.rs
index 4795515..9b72f49 100644
--- a/crates/host/runtime-ffi/src/result.rs
+++ b/crates/host/runtime-ffi/src/result.rs
@@ -23,7 +23,7 @@ use std::ops::FromResidual;
 /// free(result->error);
 /// ```
 #[allow(non_camel_case_types)]
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, PartialEq, Eq)]
 #[repr(C)]
 pub struct svm_result_t {
     receipt: *mut u8,
@@ -69,9 +69,7 @@ impl svm_result_t {
         if self.error.is_null() && self.receipt.is_null() {
             None
         } else if self.error.is_null() {
-            Some(unsafe {
-                Vec::from_raw_parts(self.receipt, self.buf_size as usize, self.buf_size as usize)
-            })
+            self.receipt().map(|receipt| receipt.to_vec())
         } else {
             let err_bytes =
                 unsafe { std::slice::from_raw_parts(self.error, self.buf_size as usize) };
@@ -125,9 +123,10 @@ impl svm_result_t {
 impl std::ops::Drop for svm_result_t {
     fn drop(&mut self) {
         let len = self.buf_size as usize;
-        unsafe {
-            let _error = Vec::from_raw_parts(self.error, len, len);
-            let _receipt = Vec::from_raw_parts(self.receipt, len, len);
+        for data in [self.error, self.receipt] {
+            if !data.is_null() {
+                drop(unsafe { Vec::from_raw_parts(data, len, len) });
+            }
         }
     }
 }
-- 
2.43.0


From 64634c89f15b0b4dc97f87888f4f14de7d4e898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 19/28] fix: a failed transaction leaves none of its changes
 behind

---
 crates/host/runtime/src/runtime/runtime.rs | 26 ++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index 1fb4eb6..edbf0cf 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -2,6 +2,7 @@ use log::info;
 use tokio::runtime::Runtime as TokioRuntime;
 use wasmer::{Instance, Module, WasmPtr, WasmTypeList};
 
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 
 use svm_codec::Codec;
@@ -81,8 +82,19 @@ impl Runtime {
     }
 
     fn exec_call<'a, Args, Rets>(&'a mut self, call: &Call<'a>) -> CallReceipt {
-        let result = self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out));
-        result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs))
+        let result = catch_unwind(AssertUnwindSafe(|| {
+            self.exec::<(), (), _, _>(&call, |env, out| outcome_to_receipt(env, out))
+        }));
+
+        if !matches!(result, Ok(Ok(_))) {
+            // A failed transaction leaves none of its changes behind.
+            self.tokio_rt.block_on(self.gs.rollback()).unwrap();
+        }
+
+        match result {
+            Ok(result) => result.unwrap_or_else(|fail| CallReceipt::from_err(fail.err, fail.logs)),
+            Err(panic) => resume_unwind(panic),
+        }
     }
 
     fn exec<Args, Rets, F, R>(&self, call: &Call, f: F) -> Result<R>
@@ -651,6 +663,8 @@ impl Runtime {
         let account = spawn.account();
         let target = compute_account_addr(&spawn);
 
+        self.checkpoint();
+
         self.create_account(
             &target,
             template_addr.clone(),
@@ -690,6 +704,8 @@ impl Runtime {
             gas_left,
         );
 
+        self.checkpoint();
+
         // TODO: override the `call.gas_limit` with `VERIFY_MAX_GAS`
         self.exec_call::<(), ()>(&call)
     }
@@ -710,6 +726,7 @@ impl Runtime {
             GasTank::new(envelope.gas_limit()),
         );
 
+        self.checkpoint();
         self.exec_call::<(), ()>(&call)
     }
 
@@ -721,6 +738,11 @@ impl Runtime {
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))
     }
 
+    /// Saves the changes made so far, so that a failing transaction won't undo them.
+    fn checkpoint(&mut self) {
+        self.tokio_rt.block_on(self.gs.checkpoint()).unwrap();
+    }
+
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
         self.tokio_rt
-- 
2.43.0


From 5438cc7dc53bad694f884937a1d662510ec8bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 20/28] fix: commit pending changes and account for saved ones
 in has_uncommitted_changes

---
 crates/host/runtime/src/runtime/runtime.rs | 1 +
 crates/host/state/src/storage.rs           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/host/runtime/src/runtime/runtime.rs b/crates/host/runtime/src/runtime/runtime.rs
index edbf0cf..94055d7 100644
--- a/crates/host/runtime/src/runtime/runtime.rs
+++ b/crates/host/runtime/src/runtime/runtime.rs
@@ -745,6 +745,7 @@ impl Runtime {
 
     /// Creates a new layer with the given changes.
     pub fn commit(&mut self) -> Result<()> {
+        self.checkpoint();
         self.tokio_rt
             .block_on(self.gs.commit())
             .map_err(|_e| RuntimeFailure::new(RuntimeError::OOG, vec![]))?;
diff --git a/crates/host/state/src/storage.rs b/crates/host/state/src/storage.rs
index 319b79f..658567e 100644
--- a/crates/host/state/src/storage.rs
+++ b/crates/host/state/src/storage.rs
@@ -114,7 +114,7 @@ impl Storage {
     }
 
     pub fn has_uncommitted_changes(&self) -> bool {
-        !self.dirty_changes.is_empty()
+        !self.dirty_changes.is_empty() || !self.next_layer.changes.is_empty()
     }
 
     /// Fetches the value associated with the Blake3 hash of `key`. See
-- 
2.43.0


From 0b83d012904f539169fccdd2684cb36b05a95ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:42 +0000
Subject: [PATCH 21/28] fix: updating a record starts from its most recent
 value

---
 crates/host/state/src/global_state.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/host/state/src/global_state.rs b/crates/host/state/src/global_state.rs
index e4445fb..15f07fa 100644
--- a/crates/host/state/src/global_state.rs
+++ b/crates/host/state/src/global_state.rs
@@ -173,12 +173,19 @@ impl GlobalState {
     }
 
     pub(crate) async fn read_and_decode<T>(&self, key: &str) -> Result<T>
+    where
+        T: Codec,
+    {
+        self.read_and_decode_at(key, self.query_layer_id()).await
+    }
+
+    async fn read_and_decode_at<T>(&self, key: &str, layer_id: Option<i64>) -> Result<T>
     where
         T: Codec,
     {
         let bytes = self
             .storage()
-            .get(key.as_bytes(), self.query_layer_id())
+            .get(key.as_bytes(), layer_id)
             .await?
             .ok_or(StorageError::NotFound {
                 key_hash: State(Blake3Hasher::hash(key.as_bytes())),
@@ -203,7 +210,8 @@ impl GlobalState {
         T: Codec,
         F: Fn(T) -> T,
     {
-        let old_item = self.read_and_decode::<T>(key).await?;
+        // The historical query parameter only affects reads.
+        let old_item = self.read_and_decode_at::<T>(key, None).await?;
 
         self.encode_and_write(&f(old_item), key).await;
         Ok(())
-- 
2.43.0


From 839668e0f2e867eb9a58f1539250b1573d5e4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:51 +0000
Subject: [PATCH 22/28] fix: encode the touched accounts of a receipt in a
 fixed order

---
 crates/host/codec/src/api/json/receipt.rs        | 16 +++++++++++++---
 .../host/codec/src/receipt/touched_accounts.rs   |  7 ++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/host/codec/src/api/json/receipt.rs b/crates/host/codec/src/api/json/receipt.rs
index 720968b..002d689 100644
--- a/crates/host/codec/src/api/json/receipt.rs
+++ b/crates/host/codec/src/api/json/receipt.rs
@@ -1,7 +1,9 @@
 use serde_json::{json, Value};
 
+use std::collections::HashSet;
+
 use svm_types::RuntimeError;
-use svm_types::{BytesPrimitive, CallReceipt, DeployReceipt, Receipt, ReceiptLog, SpawnReceipt};
+use svm_types::{Address, BytesPrimitive, CallReceipt, DeployReceipt, Receipt, ReceiptLog, SpawnReceipt};
 
 use crate::api::json::serde_types::{AddressWrapper, HexBlob, TemplateAddrWrapper};
 use crate::api::json::{self, get_field, parse_json, JsonError};
@@ -185,7 +187,7 @@ fn decode_spawn(receipt: &SpawnReceipt, ty: &'static str) -> Value {
         "state": HexBlob(init_state.as_ref().unwrap().as_slice()),
         "returndata": HexBlob(returndata.as_ref().unwrap()),
         "gas_used": json::gas_to_json(&gas_used),
-        "touched_accounts": touched_accounts.into_iter().map(|addr| AddressWrapper(*addr)).collect::<Vec<AddressWrapper>>(),
+        "touched_accounts": touched_accounts_to_json(touched_accounts),
         "logs": json::logs_to_json(&logs),
     })
 }
@@ -209,11 +211,19 @@ fn decode_call(receipt: &CallReceipt, ty: &'static str) -> Value {
         "new_state": HexBlob(new_state.as_ref().unwrap().as_slice()),
         "returndata": HexBlob(returndata.as_ref().unwrap()),
         "gas_used": json::gas_to_json(&gas_used),
-        "touched_accounts": touched_accounts.into_iter().map(|addr| AddressWrapper(*addr)).collect::<Vec<AddressWrapper>>(),
+        "touched_accounts": touched_accounts_to_json(touched_accounts),
         "logs": json::logs_to_json(&logs),
     })
 }
 
+/// The addresses in ascending order (the iteration order of a `HashSet` differs from run to run).
+fn touched_accounts_to_json(touched_accounts: &HashSet<Address>) -> Vec<AddressWrapper> {
+    let mut addrs = touched_accounts.iter().copied().collect::<Vec<_>>();
+    addrs.sort_unstable_by_key(|addr| addr.0);
+
+    addrs.into_iter().map(AddressWrapper).collect()
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::HashSet;
diff --git a/crates/host/codec/src/receipt/touched_accounts.rs b/crates/host/codec/src/receipt/touched_accounts.rs
index 7d5e4cc..14eaa45 100644
--- a/crates/host/codec/src/receipt/touched_accounts.rs
+++ b/crates/host/codec/src/receipt/touched_accounts.rs
@@ -10,7 +10,12 @@ impl Codec for HashSet<Address> {
     fn encode(&self, w: &mut impl WriteExt) {
         u16::try_from(self.len()).unwrap().encode(w);
 
-        for addr in self.iter() {
+        // The iteration order of a `HashSet` differs from run to run, while nodes must agree on
+        // the bytes of a receipt.
+        let mut addrs = self.iter().collect::<Vec<_>>();
+        addrs.sort_unstable_by_key(|addr| addr.0);
+
+        for addr in addrs {
             w.write_bytes(addr.as_slice());
         }
     }
-- 
2.43.0


From 54a5c10a7de3f038cf228bb6e8cda4b891325d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 23/28] fix: reject the conversions from floats to integers too

---
 crates/host/program/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/host/program/src/lib.rs b/crates/host/program/src/lib.rs
index 342b412..38333da 100644
--- a/crates/host/program/src/lib.rs
+++ b/crates/host/program/src/lib.rs
@@ -91,7 +91,17 @@ fn validate_opcode(op: &Op) -> Result<(), ProgramError> {
         | Instruction::F64ConvertUI64
         | Instruction::F64PromoteF32
         | Instruction::F32ReinterpretI32
-        | Instruction::F64ReinterpretI64 => Err(ProgramError::FloatsNotAllowed),
+        | Instruction::F64ReinterpretI64
+        | Instruction::I32TruncSF32
+        | Instruction::I32TruncUF32
+        | Instruction::I32TruncSF64
+        | Instruction::I32TruncUF64
+        | Instruction::I64TruncSF32
+        | Instruction::I64TruncUF32
+        | Instruction::I64TruncSF64
+        | Instruction::I64TruncUF64
+        | Instruction::I32ReinterpretF32
+        | Instruction::I64ReinterpretF64 => Err(ProgramError::FloatsNotAllowed),
         _ => Ok(()),
     }
 }
-- 
2.43.0


From 224ba4047453594b272e1338fa9d680c5f6bbe16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 24/28] fix: validating the exports of a malformed module
 reports an error instead of panicking

---
 crates/host/program/src/program.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 5171e83..716213b 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -284,15 +284,17 @@ fn export_func_signature<'p>(
     module_types: &'p [pwasm::Type],
 ) -> Result<&'p pwasm::Type, ProgramError> {
     if let pwasm::Internal::Function(global) = entry.internal() {
-        let global = *global as usize;
-        debug_assert!(global >= import_count);
-
-        let local = global - import_count;
-        let func = &module_functions[local];
+        // An imported function can't be re-exported as an SVM API.
+        let local = (*global as usize)
+            .checked_sub(import_count)
+            .ok_or(ProgramError::InvalidExportKind)?;
+
+        let func = module_functions
+            .get(local)
+            .ok_or(ProgramError::InvalidWasm)?;
         let type_ref = func.type_ref() as usize;
-        let sig = &module_types[type_ref];
 
-        Ok(sig)
+        module_types.get(type_ref).ok_or(ProgramError::InvalidWasm)
     } else {
         Err(ProgramError::InvalidExportKind)
     }
-- 
2.43.0


From f353db3bf7b3930cd55a27a55bc0a21d8ae73faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 25/28] fix: count imported functions against the limit on
 functions

---
 crates/host/program/src/program.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/host/program/src/program.rs b/crates/host/program/src/program.rs
index 716213b..13a8e02 100644
--- a/crates/host/program/src/program.rs
+++ b/crates/host/program/src/program.rs
@@ -60,7 +60,10 @@ impl Program {
         if validate_exports {
             module_validate_exports(&module)?;
         }
-        if count_functions_in_program(&program) > u16::MAX as u64 {
+
+        let func_count =
+            program.imports().count() as u64 + count_functions_in_program(&program);
+        if func_count > u16::MAX as u64 {
             return Err(ProgramError::FunctionIndexTooLarge);
         }
 
-- 
2.43.0


From 7608d41e75d3f7bc7ffce9885ef2051b47c9ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:46 +0000
Subject: [PATCH 26/28] fix: looking up an unknown variable with try_get
 returns None instead of panicking

---
 crates/host/layout/src/fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/host/layout/src/fixed.rs b/crates/host/layout/src/fixed.rs
index 1244810..5526ebd 100644
--- a/crates/host/layout/src/fixed.rs
+++ b/crates/host/layout/src/fixed.rs
@@ -54,9 +54,9 @@ impl FixedLayout {
     ///
     #[inline]
     pub fn try_get(&self, id: Id) -> Option<&RawVar> {
-        let index = self.var_index(id);
+        let index = id.checked_sub(self.first?)?;
 
-        self.vars.get(index)
+        self.vars.get(index as usize)
     }
 
     #[inline]
-- 
2.43.0


From 8ab3e2e493c2caa305c0f49af76128cc8351823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:54 +0000
Subject: [PATCH 27/28] fix: byte_size of an array counts its items, not one
 more

---
 crates/wasm/abi-encoder/src/types/small_array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/wasm/abi-encoder/src/types/small_array.rs b/crates/wasm/abi-encoder/src/types/small_array.rs
index 2ffd233..4a2a67f 100644
--- a/crates/wasm/abi-encoder/src/types/small_array.rs
+++ b/crates/wasm/abi-encoder/src/types/small_array.rs
@@ -40,7 +40,7 @@ where
             // The compiler complains, but it's wrong! The following comparison
             // might be useless or not, depending on the array const generic.
             #[allow(unused_comparisons)]
-            if N >= i {
+            if N > i {
                 payload_size += self[i].byte_size();
             }
         });
-- 
2.43.0


From b47603891bfecbcfd6042fa01dd1e72443577bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:54 +0000
Subject: [PATCH 28/28] fix: decode arrays into a vector with room for their
 items, not for their marker

---
 crates/wasm/abi-decoder/src/decoder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/wasm/abi-decoder/src/decoder.rs b/crates/wasm/abi-decoder/src/decoder.rs
index 677a2b2..101ba1a 100644
--- a/crates/wasm/abi-decoder/src/decoder.rs
+++ b/crates/wasm/abi-decoder/src/decoder.rs
@@ -265,8 +265,6 @@ impl Decoder {
 
         let len = self.read_byte(cursor)?;
 
-        let mut values: Vec<Value> = Vec::with_capacity(len as usize);
-
         let len = match len {
             layout::ARR_0 => 0,
             layout::ARR_1 => 1,
@@ -281,6 +279,9 @@ impl Decoder {
             layout::ARR_10 => 10,
             _ => svm_sdk_std::panic(),
         };
+
+        let mut values: Vec<Value> = Vec::with_capacity(len);
+
         seq_macro::seq!(n in 0..11 {
             if len > n {
                 let value = self.decode_primitive(cursor)?;
-- 
2.43.0

