From ce8b2e0f4381fff7987761acd81f136903171142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 01/28] fix: give Approve transactions and receipts a fixed
 encoding

TransactionAction::Approve and ReceiptResult::Approve were encoded as nothing, so a
transaction or receipt carrying them could not be decoded and every Approve hashed alike.
---
 protocol/src/fixed_codec/receipt.rs     | 24 +++++++++++++-
 protocol/src/fixed_codec/transaction.rs | 43 ++++++++++++++++++++++++-
 2 files changed, 65 insertions(+), 2 deletions(-)

diff --git a/protocol/src/fixed_codec/receipt.rs b/protocol/src/fixed_codec/receipt.rs
index 07a38e8..7548f0b 100644
--- a/protocol/src/fixed_codec/receipt.rs
+++ b/protocol/src/fixed_codec/receipt.rs
@@ -45,6 +45,7 @@ const TRANSFER_RESULT_FLAG: u8 = 0;
 const DEPLOY_RESULT_FLAG: u8 = 1;
 const CALL_RESULT_FLAG: u8 = 2;
 const FAIL_RESULT_FLAG: u8 = 3;
+const APPROVE_RESULT_FLAG: u8 = 4;
 
 impl rlp::Encodable for ReceiptResult {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -93,7 +94,17 @@ impl rlp::Encodable for ReceiptResult {
                     .append(&system.as_bytes())
                     .append(&user.as_bytes());
             }
-            _ => {}
+            ReceiptResult::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(4)
+                    .append(&APPROVE_RESULT_FLAG)
+                    .append(asset_id)
+                    .append(&max.to_bytes_be())
+                    .append(spender);
+            }
         }
     }
 }
@@ -152,6 +163,17 @@ impl rlp::Decodable for ReceiptResult {
 
                 Ok(ReceiptResult::Fail { system, user })
             }
+            APPROVE_RESULT_FLAG => {
+                let asset_id = rlp::decode(r.at(1)?.as_raw())?;
+                let max = Balance::from_bytes_be(r.at(2)?.data()?);
+                let spender = rlp::decode(r.at(3)?.as_raw())?;
+
+                Ok(ReceiptResult::Approve {
+                    spender,
+                    asset_id,
+                    max,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index 9e7a8bc..b451425 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -14,6 +14,7 @@ const TRANSFER_ACTION_FLAG: u8 = 0;
 const DEPLOY_ACTION_FLAG: u8 = 1;
 const CALL_ACTION_WITH_ASSET_FLAG: u8 = 2;
 const CALL_ACTION_WITHOUT_ASSET_FLAG: u8 = 3;
+const APPROVE_ACTION_FLAG: u8 = 4;
 
 impl rlp::Encodable for RawTransaction {
     fn rlp_append(&self, s: &mut rlp::RlpStream) {
@@ -102,7 +103,26 @@ impl rlp::Encodable for RawTransaction {
                 s.append(&contract.as_bytes().to_vec());
                 s.append(&method.as_bytes());
             }
-            _ => {}
+            TransactionAction::Approve {
+                spender,
+                asset_id,
+                max,
+            } => {
+                s.begin_list(9);
+                s.append(&APPROVE_ACTION_FLAG);
+
+                // Append tx basic fields
+                s.append(&self.chain_id.as_bytes().to_vec());
+                s.append(&self.fee.asset_id.as_bytes().to_vec());
+                s.append(&self.fee.cycle);
+                s.append(&self.nonce.as_bytes().to_vec());
+                s.append(&self.timeout);
+
+                // Append tx action fields
+                s.append(&max.to_bytes_be());
+                s.append(&asset_id.as_bytes().to_vec());
+                s.append(&spender.as_bytes().to_vec());
+            }
         }
     }
 }
@@ -221,6 +241,27 @@ impl rlp::Decodable for RawTransaction {
                     })
                 }
             }
+            APPROVE_ACTION_FLAG => {
+                // Decode tx basic fields
+                let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
+
+                // Decode tx action fields
+                let action = TransactionAction::Approve {
+                    spender:  ContractAddress::from_bytes(Bytes::from(r.at(8)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                    asset_id: Hash::from_bytes(Bytes::from(r.at(7)?.data()?))
+                        .map_err(|_| rlp::DecoderError::RlpInvalidLength)?,
+                    max:      Balance::from_bytes_be(r.at(6)?.data()?),
+                };
+
+                Ok(RawTransaction {
+                    chain_id,
+                    nonce,
+                    timeout,
+                    fee,
+                    action,
+                })
+            }
             _ => Err(rlp::DecoderError::RlpListLenWithZeroPrefix),
         }
     }
-- 
2.43.0


From 0a7c66e6216c439fdfb84fb5a5c790acfbcfcbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 02/28] fix: reject malformed fixed encodings instead of
 panicking

---
 protocol/src/fixed_codec/epoch.rs       | 10 +++++-----
 protocol/src/fixed_codec/genesis.rs     | 17 +++++------------
 protocol/src/fixed_codec/primitive.rs   |  6 +++---
 protocol/src/fixed_codec/transaction.rs |  2 +-
 4 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/protocol/src/fixed_codec/epoch.rs b/protocol/src/fixed_codec/epoch.rs
index aa79ac1..00b1aa0 100644
--- a/protocol/src/fixed_codec/epoch.rs
+++ b/protocol/src/fixed_codec/epoch.rs
@@ -96,7 +96,7 @@ impl rlp::Decodable for EpochHeader {
         }
 
         let chain_id: Hash = rlp::decode(r.at(0)?.as_raw())?;
-        let confirm_root: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let confirm_root: Vec<Hash> = r.list_at(1)?;
         let cycles_used: u64 = r.at(2)?.as_val()?;
         let epoch_id: u64 = r.at(3)?.as_val()?;
         let logs_bloom: Bloom = rlp::decode(r.at(4)?.as_raw())?;
@@ -104,11 +104,11 @@ impl rlp::Decodable for EpochHeader {
         let pre_hash = rlp::decode(r.at(6)?.as_raw())?;
         let proof: Proof = rlp::decode(r.at(7)?.as_raw())?;
         let proposer = rlp::decode(r.at(8)?.as_raw())?;
-        let receipt_root: Vec<Hash> = rlp::decode_list(r.at(9)?.as_raw());
+        let receipt_root: Vec<Hash> = r.list_at(9)?;
         let state_root = rlp::decode(r.at(10)?.as_raw())?;
         let timestamp: u64 = r.at(11)?.as_val()?;
         let validator_version: u64 = r.at(12)?.as_val()?;
-        let validators: Vec<Validator> = rlp::decode_list(r.at(13)?.as_raw());
+        let validators: Vec<Validator> = r.list_at(13)?;
 
         Ok(EpochHeader {
             chain_id,
@@ -144,7 +144,7 @@ impl rlp::Decodable for Epoch {
         }
 
         let header: EpochHeader = rlp::decode(r.at(0)?.as_raw())?;
-        let ordered_tx_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let ordered_tx_hashes: Vec<Hash> = r.list_at(1)?;
 
         Ok(Epoch {
             header,
@@ -168,7 +168,7 @@ impl rlp::Decodable for Pill {
         }
 
         let epoch: Epoch = rlp::decode(r.at(0)?.as_raw())?;
-        let propose_hashes: Vec<Hash> = rlp::decode_list(r.at(1)?.as_raw());
+        let propose_hashes: Vec<Hash> = r.list_at(1)?;
 
         Ok(Pill {
             epoch,
diff --git a/protocol/src/fixed_codec/genesis.rs b/protocol/src/fixed_codec/genesis.rs
index 7a80c18..594fc3d 100644
--- a/protocol/src/fixed_codec/genesis.rs
+++ b/protocol/src/fixed_codec/genesis.rs
@@ -27,19 +27,12 @@ impl rlp::Decodable for GenesisSystemToken {
             return Err(rlp::DecoderError::RlpIncorrectListLen);
         }
 
-        let mut values = Vec::with_capacity(4);
-
-        for val in r {
-            let data = val.data()?;
-            values.push(data)
-        }
-
-        let code = String::from_utf8(values[0].to_vec())
+        let code = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let name = String::from_utf8(values[1].to_vec())
+        let name = String::from_utf8(r.at(1)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
         let supply: u64 = r.at(2)?.as_val()?;
-        let symbol = String::from_utf8(values[3].to_vec())
+        let symbol = String::from_utf8(r.at(3)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
 
         Ok(GenesisSystemToken {
@@ -90,7 +83,7 @@ impl rlp::Decodable for GenesisStateAlloc {
 
         let address = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let assets: Vec<GenesisStateAsset> = rlp::decode_list(r.at(1)?.as_raw());
+        let assets: Vec<GenesisStateAsset> = r.list_at(1)?;
 
         Ok(GenesisStateAlloc { address, assets })
     }
@@ -114,7 +107,7 @@ impl rlp::Decodable for Genesis {
 
         let prevhash = String::from_utf8(r.at(0)?.data()?.to_vec())
             .map_err(|_| rlp::DecoderError::RlpInvalidLength)?;
-        let state_alloc: Vec<GenesisStateAlloc> = rlp::decode_list(r.at(1)?.as_raw());
+        let state_alloc: Vec<GenesisStateAlloc> = r.list_at(1)?;
         let system_token = rlp::decode(r.at(2)?.as_raw())?;
         let timestamp = r.at(3)?.as_val()?;
 
diff --git a/protocol/src/fixed_codec/primitive.rs b/protocol/src/fixed_codec/primitive.rs
index 320b456..9c1fcfe 100644
--- a/protocol/src/fixed_codec/primitive.rs
+++ b/protocol/src/fixed_codec/primitive.rs
@@ -208,7 +208,7 @@ impl rlp::Decodable for Account {
 
         match flag {
             USER_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedUserAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedUserAsset> = r.list_at(1)?;
                 let nonce = r.at(2)?.as_val()?;
 
                 let mut assets = BTreeMap::new();
@@ -223,7 +223,7 @@ impl rlp::Decodable for Account {
                 Ok(Account::User(UserAccount { nonce, assets }))
             }
             CONTRACT_ACCOUNT_FLAG => {
-                let asset_list: Vec<FixedContractAsset> = rlp::decode_list(r.at(1)?.as_raw());
+                let asset_list: Vec<FixedContractAsset> = r.list_at(1)?;
 
                 let mut assets = BTreeMap::new();
 
@@ -276,7 +276,7 @@ impl rlp::Encodable for FixedUserAsset {
 
 impl rlp::Decodable for FixedUserAsset {
     fn decode(r: &rlp::Rlp) -> Result<Self, rlp::DecoderError> {
-        let approved_list: Vec<FixedUserAssetApproved> = rlp::decode_list(r.at(0)?.as_raw());
+        let approved_list: Vec<FixedUserAssetApproved> = r.list_at(0)?;
 
         let mut approved = BTreeMap::new();
         for v in approved_list {
diff --git a/protocol/src/fixed_codec/transaction.rs b/protocol/src/fixed_codec/transaction.rs
index b451425..04e2670 100644
--- a/protocol/src/fixed_codec/transaction.rs
+++ b/protocol/src/fixed_codec/transaction.rs
@@ -189,7 +189,7 @@ impl rlp::Decodable for RawTransaction {
                 let (chain_id, fee, nonce, timeout) = help_decode_raw_tx(r)?;
 
                 // Decode tx action fields
-                let args: Vec<String> = rlp::decode_list(r.at(6)?.as_raw());
+                let args: Vec<String> = r.list_at(6)?;
                 let args: Result<Vec<_>, _> = args.iter().map(|arg| hex_to_bytes(&arg)).collect();
                 let args = args?;
 
-- 
2.43.0


From c7de05f3329718188c8af6fcd8fafc3b73a2c5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 03/28] fix: keep the contract type and reject short blooms in
 the protobuf codec

---
 protocol/src/codec/epoch.rs       |  4 +++-
 protocol/src/codec/primitive.rs   | 23 +++++++++++++++--------
 protocol/src/codec/receipt.rs     |  8 ++++++--
 protocol/src/codec/transaction.rs |  3 ++-
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/protocol/src/codec/epoch.rs b/protocol/src/codec/epoch.rs
index 86df6bb..13097b2 100644
--- a/protocol/src/codec/epoch.rs
+++ b/protocol/src/codec/epoch.rs
@@ -5,7 +5,7 @@ use prost::Message;
 
 use crate::{
     codec::{
-        primitive::{Hash, UserAddress},
+        primitive::{ensure_len, Hash, UserAddress},
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
@@ -216,6 +216,8 @@ impl TryFrom<EpochHeader> for epoch::EpochHeader {
         let proposer = field!(epoch_header.proposer, "EpochHeader", "proposer")?;
         let proof = field!(epoch_header.proof, "EpochHeader", "proof")?;
 
+        ensure_len(epoch_header.logs_bloom.len(), Bloom::len_bytes())?;
+
         let mut confirm_root = Vec::new();
         for root in epoch_header.confirm_root {
             confirm_root.push(protocol_primitive::Hash::try_from(root)?);
diff --git a/protocol/src/codec/primitive.rs b/protocol/src/codec/primitive.rs
index c4bc1a1..8123408 100644
--- a/protocol/src/codec/primitive.rs
+++ b/protocol/src/codec/primitive.rs
@@ -206,6 +206,19 @@ impl TryFrom<UserAddress> for protocol_primitive::UserAddress {
     }
 }
 
+// ContractType
+
+impl From<protocol_primitive::ContractType> for ContractType {
+    fn from(contract_type: protocol_primitive::ContractType) -> ContractType {
+        match contract_type {
+            protocol_primitive::ContractType::Asset => ContractType::Asset,
+            protocol_primitive::ContractType::Library => ContractType::Library,
+            protocol_primitive::ContractType::App => ContractType::App,
+            protocol_primitive::ContractType::Native => ContractType::Native,
+        }
+    }
+}
+
 // ContractAddress
 
 impl From<protocol_primitive::ContractAddress> for ContractAddress {
@@ -213,12 +226,7 @@ impl From<protocol_primitive::ContractAddress> for ContractAddress {
         let value = contract.as_bytes().to_vec();
         let address = Some(Address { value });
 
-        let contract_type = match contract.contract_type() {
-            protocol_primitive::ContractType::Asset => ContractType::Asset,
-            protocol_primitive::ContractType::Library => ContractType::Library,
-            protocol_primitive::ContractType::App => ContractType::App,
-            protocol_primitive::ContractType::Native => ContractType::Native,
-        };
+        let contract_type = ContractType::from(contract.contract_type());
 
         ContractAddress {
             value:         address,
@@ -332,8 +340,7 @@ impl_default_bytes_codec_for!(primitive, [
 // Util
 // #####################
 
-#[allow(dead_code)]
-fn ensure_len(real: usize, expect: usize) -> Result<(), CodecError> {
+pub(super) fn ensure_len(real: usize, expect: usize) -> Result<(), CodecError> {
     if real != expect {
         return Err(CodecError::WrongBytesLength { expect, real });
     }
diff --git a/protocol/src/codec/receipt.rs b/protocol/src/codec/receipt.rs
index f04f8f2..d361b91 100644
--- a/protocol/src/codec/receipt.rs
+++ b/protocol/src/codec/receipt.rs
@@ -5,7 +5,9 @@ use prost::{Message, Oneof};
 
 use crate::{
     codec::{
-        primitive::{AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress},
+        primitive::{
+            ensure_len, AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress,
+        },
         CodecError, ProtocolCodecSync,
     },
     field, impl_default_bytes_codec_for,
@@ -141,7 +143,7 @@ impl From<receipt::ReceiptResult> for ReceiptResult {
             } => {
                 let deploy = Deploy {
                     contract:      Some(ContractAddress::from(contract)),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 ReceiptResult::Deploy(deploy)
@@ -216,6 +218,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
@@ -228,6 +231,7 @@ impl TryFrom<ReceiptResult> for receipt::ReceiptResult {
             }
             ReceiptResult::Call(call) => {
                 let contract = field!(call.contract, "ReceiptResult::Call", "contract")?;
+                ensure_len(call.logs_bloom.len(), Bloom::len_bytes())?;
 
                 let action = receipt::ReceiptResult::Call {
                     contract:     protocol_primitive::ContractAddress::try_from(contract)?,
diff --git a/protocol/src/codec/transaction.rs b/protocol/src/codec/transaction.rs
index 3b24e40..6bb5594 100644
--- a/protocol/src/codec/transaction.rs
+++ b/protocol/src/codec/transaction.rs
@@ -181,7 +181,7 @@ impl From<transaction::TransactionAction> for TransactionAction {
             } => {
                 let deploy = Deploy {
                     code:          code.to_vec(),
-                    contract_type: contract_type as i32,
+                    contract_type: ContractType::from(contract_type) as i32,
                 };
 
                 TransactionAction::Deploy(deploy)
@@ -255,6 +255,7 @@ impl TryFrom<TransactionAction> for transaction::TransactionAction {
                     0 => protocol_primitive::ContractType::Asset,
                     1 => protocol_primitive::ContractType::Library,
                     2 => protocol_primitive::ContractType::App,
+                    3 => protocol_primitive::ContractType::Native,
                     _ => return Err(CodecError::InvalidContractType(deploy.contract_type).into()),
                 };
 
-- 
2.43.0


From de627a00732c66a8bb0791a4b10f62cf80896aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 04/28] verif: export executor internals under cfg(verif_hooks)

---
 core/executor/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 53061b0..e797122 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -5,6 +5,14 @@ mod native_contract;
 #[cfg(test)]
 mod tests;
 pub mod trie;
+/// Private parts, for the verification harnesses.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::adapter::*;
+    pub use crate::cycles::*;
+    pub use crate::fixed_types::*;
+    pub use crate::native_contract::*;
+}
 
 use std::cell::RefCell;
 use std::collections::HashMap;
-- 
2.43.0


From a175a6be198149c78fbc51b64e47bd57c4ba2d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 05/28] fix: persist nonces and block fees

---
 core/executor/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index e797122..55837b8 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -133,6 +133,7 @@ impl<DB: TrieDB> Executor for TransactionExecutor<DB> {
             };
 
             self.account_contract.inc_nonce(Rc::clone(&ictx))?;
+            self.stash()?;
 
             let receipt = Receipt {
                 state_root: Hash::from_empty(),
@@ -160,6 +161,8 @@ impl<DB: TrieDB> Executor for TransactionExecutor<DB> {
             )?;
         }
 
+        self.stash()?;
+
         // commit state
         let state_root = self.commit()?;
         for receipt in receipts.iter_mut() {
-- 
2.43.0


From 334d234e472396604b14262d3de32c46bc06c052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 06/28] fix: count the nonce of a sender that has no account
 yet instead of failing the block

---
 core/executor/src/native_contract/account.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 8de79bf..280eaa1 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -110,7 +110,7 @@ impl<StateAdapter: ContractStateAdapter> AccountContract<StateAdapter>
 
     fn inc_nonce(&mut self, ictx: RcInvokeContext) -> ProtocolResult<()> {
         let caller = &ictx.borrow().caller;
-        let account = self.get_account(caller)?;
+        let account = self.find_or_create(caller)?;
 
         let modified_account = match account {
             Account::User(user) => Account::User(UserAccount {
-- 
2.43.0


From a03fb965ccbfacf6ef135e7c389a0f3e7e619e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 07/28] fix: fail unsupported transactions instead of panicking

---
 core/executor/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/executor/src/lib.rs b/core/executor/src/lib.rs
index 55837b8..8e9c305 100644
--- a/core/executor/src/lib.rs
+++ b/core/executor/src/lib.rs
@@ -199,7 +199,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                 code,
                 contract_type,
             } => self.handle_deploy(Rc::clone(&ictx), code, contract_type)?,
-            _ => panic!("Unsupported transaction"),
+            _ => return Err(TransactionExecutorError::Unsupported.into()),
         };
 
         Ok(res)
@@ -265,7 +265,7 @@ impl<DB: TrieDB> TransactionExecutor<DB> {
                     contract_type: ContractType::Asset,
                 })
             }
-            _ => panic!("Unsupported transaction"),
+            _ => Err(TransactionExecutorError::Unsupported.into()),
         }
     }
 
@@ -416,6 +416,9 @@ fn gen_invoke_ctx(
 pub enum TransactionExecutorError {
     FromHex(hex::FromHexError),
     ParseInt(ParseIntError),
+
+    #[display(fmt = "unsupported transaction")]
+    Unsupported,
 }
 
 impl Error for TransactionExecutorError {}
-- 
2.43.0


From 2d5484b45d713b03cfa68240322d8e77a33fdf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:14 +0000
Subject: [PATCH 08/28] fix: check a contract account's balance before spending
 from it

---
 core/executor/src/native_contract/account.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/executor/src/native_contract/account.rs b/core/executor/src/native_contract/account.rs
index 280eaa1..de23fdf 100644
--- a/core/executor/src/native_contract/account.rs
+++ b/core/executor/src/native_contract/account.rs
@@ -269,12 +269,16 @@ impl<StateAdapter: ContractStateAdapter> NativeAccountContract<StateAdapter> {
         account: &mut ContractAccount,
         amount: Balance,
     ) -> ProtocolResult<()> {
-        account
-            .assets
-            .entry(id.clone())
-            .and_modify(|balance| *balance -= amount.clone())
-            .or_insert(amount);
-        Ok(())
+        if let Some(balance) = account.assets.get_mut(id) {
+            if *balance < amount {
+                return Err(NativeAccountContractError::InsufficientBalance.into());
+            }
+
+            *balance -= amount;
+            return Ok(());
+        }
+
+        Err(NativeAccountContractError::InsufficientBalance.into())
     }
 }
 
-- 
2.43.0


From 5c2df0e090f483336a548be19a4fa8b6be21681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:38 +0000
Subject: [PATCH 09/28] fix: keep the categories of the in-memory storage apart

---
 core/storage/src/adapter/memory.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/storage/src/adapter/memory.rs b/core/storage/src/adapter/memory.rs
index 8e4abf5..81c9d45 100644
--- a/core/storage/src/adapter/memory.rs
+++ b/core/storage/src/adapter/memory.rs
@@ -8,7 +8,7 @@ use derive_more::{Display, From};
 use parking_lot::RwLock;
 
 use protocol::codec::ProtocolCodec;
-use protocol::traits::{StorageAdapter, StorageBatchModify, StorageSchema};
+use protocol::traits::{StorageAdapter, StorageBatchModify, StorageCategory, StorageSchema};
 use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
 
 #[derive(Debug)]
@@ -24,6 +24,12 @@ impl MemoryAdapter {
     }
 }
 
+// Keys of different categories live side by side, as in the column families of
+// `RocksAdapter`.
+fn with_category(category: StorageCategory, key: &[u8]) -> Vec<u8> {
+    [&[category as u8], key].concat()
+}
+
 impl Default for MemoryAdapter {
     fn default() -> Self {
         MemoryAdapter {
@@ -39,7 +45,7 @@ impl StorageAdapter for MemoryAdapter {
         mut key: <S as StorageSchema>::Key,
         mut val: <S as StorageSchema>::Value,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = with_category(S::category(), &key.encode().await?);
         let val = val.encode().await?.to_vec();
 
         self.db.write().insert(key, val);
@@ -51,9 +57,9 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<Option<<S as StorageSchema>::Value>> {
-        let key = key.encode().await?;
+        let key = with_category(S::category(), &key.encode().await?);
 
-        let opt_bytes = self.db.read().get(&key.to_vec()).cloned();
+        let opt_bytes = self.db.read().get(&key).cloned();
 
         if let Some(bytes) = opt_bytes {
             let val = <_>::decode(bytes).await?;
@@ -68,7 +74,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<()> {
-        let key = key.encode().await?.to_vec();
+        let key = with_category(S::category(), &key.encode().await?);
 
         self.db.write().remove(&key);
 
@@ -79,7 +85,7 @@ impl StorageAdapter for MemoryAdapter {
         &self,
         mut key: <S as StorageSchema>::Key,
     ) -> ProtocolResult<bool> {
-        let key = key.encode().await?.to_vec();
+        let key = with_category(S::category(), &key.encode().await?);
 
         Ok(self.db.read().get(&key).is_some())
     }
@@ -93,10 +99,10 @@ impl StorageAdapter for MemoryAdapter {
             return Err(MemoryAdapterError::BatchLengthMismatch.into());
         }
 
-        let mut pairs: Vec<(Bytes, Option<Bytes>)> = Vec::with_capacity(keys.len());
+        let mut pairs: Vec<(Vec<u8>, Option<Bytes>)> = Vec::with_capacity(keys.len());
 
         for (mut key, value) in keys.into_iter().zip(vals.into_iter()) {
-            let key = key.encode().await?;
+            let key = with_category(S::category(), &key.encode().await?);
 
             let value = match value {
                 StorageBatchModify::Insert(mut value) => Some(value.encode().await?),
@@ -108,8 +114,8 @@ impl StorageAdapter for MemoryAdapter {
 
         for (key, value) in pairs.into_iter() {
             match value {
-                Some(value) => self.db.write().insert(key.to_vec(), value.to_vec()),
-                None => self.db.write().remove(&key.to_vec()),
+                Some(value) => self.db.write().insert(key, value.to_vec()),
+                None => self.db.write().remove(&key),
             };
         }
 
-- 
2.43.0


From 1e3f9b8795bccb90ca7f452a03571bfb7e458a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 10/28] verif: export network internals under cfg(verif_hooks)

---
 core/network/src/lib.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/network/src/lib.rs b/core/network/src/lib.rs
index 611d804..48b01b0 100644
--- a/core/network/src/lib.rs
+++ b/core/network/src/lib.rs
@@ -17,3 +17,24 @@ mod traits;
 pub use config::NetworkConfig;
 pub use message::{serde, serde_multi};
 pub use service::{NetworkService, NetworkServiceHandle};
+
+/// What the verification harnesses drive directly.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::{
+        common::*,
+        compression::*,
+        connection::*,
+        endpoint::*,
+        error::*,
+        event::*,
+        message::*,
+        outbound::*,
+        peer_manager::*,
+        reactor::{DummyHandler, Reactor},
+        rpc_map::RpcMap,
+        traits::*,
+    };
+
+    pub type MessageRouter<C> = crate::reactor::MessageRouter<C>;
+}
-- 
2.43.0


From 14744c91ec43fdc7c2accc146cab66cffa6493e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 11/28] fix: do not leave a call registered that could not be
 sent

---
 core/network/src/outbound/rpc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/network/src/outbound/rpc.rs b/core/network/src/outbound/rpc.rs
index 8ac13c4..f0807de 100644
--- a/core/network/src/outbound/rpc.rs
+++ b/core/network/src/outbound/rpc.rs
@@ -58,13 +58,17 @@ where
         let endpoint = end.parse::<Endpoint>()?;
         let sid = cx.session_id()?;
         let rid = self.map.next_rpc_id();
-        let done_rx = self.map.insert::<R>(sid, rid);
 
         let data = msg.encode().await?;
         let endpoint = endpoint.extend(&rid.to_string())?;
         let net_msg = NetworkMessage::new(endpoint, data).encode().await?;
 
-        self.send(cx, sid, net_msg, p)?;
+        // A call which is never sent must not stay registered
+        let done_rx = self.map.insert::<R>(sid, rid);
+        if let Err(err) = self.send(cx, sid, net_msg, p) {
+            let _ = self.map.take::<R>(sid, rid);
+            return Err(err.into());
+        }
 
         let ret = done_rx
             .map_err(|_| ErrorKind::RpcDropped)
-- 
2.43.0


From 7c7bb59d7548259606b165703bfabe250121ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 12/28] fix: peers must not be able to panic the peer manager

Peers announce addresses of any shape, for peers that may be gone already;
both are logged and ignored.
---
 core/network/src/peer_manager/mod.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index d597586..e2110ac 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -209,8 +209,6 @@ impl Inner {
         let mut pool = self.pool.write();
 
         if !pool.contains_key(&peer_id) {
-            debug_assert!(false, "peer {:?} not found", peer_id);
-
             error!("network: peer {:?} not found", peer_id);
             return;
         }
@@ -241,12 +239,8 @@ impl Inner {
 
         // Try root match
         let comps = addr.iter().collect::<Vec<_>>();
-        debug_assert!(
-            comps.len() > 1,
-            "network: multiaddr should contains at least 2 components",
-        );
-
         if comps.len() < 2 {
+            warn!("network: multiaddr {} should contains at least 2 components", addr);
             return None;
         }
 
@@ -605,8 +599,6 @@ impl PeerManager {
         self.unknown_addrs.remove(&addr.clone().into());
 
         if !self.session_peer.contains_key(&sid) {
-            debug_assert!(false, "session {} no peer id", sid);
-
             error!("network: fatal!!! session {} no peer id", sid);
             return;
         }
-- 
2.43.0


From f373f9e8bc5470728ce4b9379bc00be0740f8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 13/28] fix: release a peer whose dial failed

It stayed in the connecting set, was never dialed again and used up a
connection for ever.
---
 core/network/src/peer_manager/mod.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index e2110ac..20f405d 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -313,6 +313,11 @@ impl Inner {
         self.connecting.write().insert(peer_id.clone());
     }
 
+    // Dial is over without a connection
+    pub fn stop_connecting(&self, peer_id: &PeerId) {
+        self.connecting.write().remove(peer_id);
+    }
+
     pub fn set_connected(&self, peer_id: &PeerId, ip: Option<IpAddr>) {
         // Clean outbound connection
         self.connecting.write().remove(peer_id);
@@ -952,10 +957,25 @@ impl PeerManager {
 
                 if self.bootstraps.contains(&addr) {
                     error!("network: unconnectable bootstrap address {}", addr);
+
+                    if let Some(pid) = self.inner.match_pid(&addr) {
+                        if !self.inner.peer_connected(&pid) {
+                            self.inner.stop_connecting(&pid);
+                            self.increase_peer_retry(&pid);
+                        }
+                    }
                     return;
                 }
 
+                let opt_pid = self.inner.match_pid(&addr);
                 self.inner.try_remove_addr(&addr);
+
+                // No address left to wait for
+                if let Some(pid) = opt_pid {
+                    if self.inner.peer_addrs(&pid).map_or(true, |addrs| addrs.is_empty()) {
+                        self.inner.stop_connecting(&pid);
+                    }
+                }
             }
             PeerManagerEvent::ReconnectLater { addr, .. } => {
                 if let Some(mut unknown) = self.unknown_addrs.take(&addr.clone().into()) {
@@ -974,6 +994,7 @@ impl PeerManager {
                         return;
                     }
 
+                    self.inner.stop_connecting(&pid);
                     self.increase_peer_retry(&pid);
                 }
             }
-- 
2.43.0


From 379a680f844c22c6c33d655f878320ef7303b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 14/28] fix: do not dial peers without an address

They were put in the connecting set, which nothing takes them out of.
---
 core/network/src/peer_manager/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 20f405d..3abe46e 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -360,7 +360,10 @@ impl Inner {
         let qualified_peers = pool.values().filter(|peer| {
             let pid = peer.id();
 
-            !connected.contains(pid) && !connecting.contains(pid) && peer.retry_ready()
+            !connected.contains(pid)
+                && !connecting.contains(pid)
+                && !peer.addrs().is_empty()
+                && peer.retry_ready()
         });
 
         qualified_peers
-- 
2.43.0


From 9b661d80c8d57dccc87484736ed7d0482fc9a456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 15/28] fix: disconnect a peer that reaches its maximum retry
 count

Removing it drops its session id before the session was closed.
---
 core/network/src/peer_manager/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 3abe46e..68f6246 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -897,21 +897,21 @@ impl PeerManager {
                     self.peer_id, pid
                 );
 
-                self.increase_peer_retry(&pid);
+                // Peer may be removed below, together with its session id
+                let opt_sid = self.peer_session.get(&pid).cloned();
 
-                if !self.peer_session.contains_key(&pid) {
-                    debug!("network: retry peer {:?} but session id not found", pid);
-                    return;
-                }
+                self.increase_peer_retry(&pid);
 
                 // Make sure that we disconnect this peer
-                if let Some(sid) = self.peer_session.get(&pid) {
-                    let disconnect_peer = ConnectionEvent::Disconnect(*sid);
+                if let Some(sid) = opt_sid {
+                    let disconnect_peer = ConnectionEvent::Disconnect(sid);
 
                     // TODO: report upstream or wrap some how
                     if self.conn_tx.unbounded_send(disconnect_peer).is_err() {
                         debug!("network: connection service exit");
                     }
+                } else {
+                    debug!("network: retry peer {:?} but session id not found", pid);
                 }
             }
             PeerManagerEvent::DiscoverAddr { addr } => {
-- 
2.43.0


From 20336fca9f8c814c7e247503bc2474fe5c2b68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:37 +0000
Subject: [PATCH 16/28] fix: retry an unknown address up to the maximum retry
 count

The comparison was the wrong way round, it was dropped at its first failure.
---
 core/network/src/peer_manager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 68f6246..8b87489 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -85,7 +85,7 @@ impl UnknownAddr {
     }
 
     pub fn reach_max_retry(&self) -> bool {
-        MAX_RETRY_COUNT + 1 >= self.retry_count
+        self.retry_count >= MAX_RETRY_COUNT
     }
 }
 
-- 
2.43.0


From a63dc9265e0f64528a6e09a0d392c36c40a23b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 17/28] fix: keep packaged cycles within the limit

---
 core/mempool/src/tx_cache.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/core/mempool/src/tx_cache.rs b/core/mempool/src/tx_cache.rs
index 54f6cb6..70fbd4d 100644
--- a/core/mempool/src/tx_cache.rs
+++ b/core/mempool/src/tx_cache.rs
@@ -217,16 +217,31 @@ impl TxCache {
                 }
                 // Accumulate cycles. The order_tx_hashes and the propose_tx_hashes both collect
                 // transactions under cycle limit.
-                cycle_count += shared_tx.tx.raw.fee.cycle;
-                if cycle_count > cycle_limit {
+                let cycle = shared_tx.tx.raw.fee.cycle;
+                let add_cycle = |count: u64| {
+                    count
+                        .checked_add(cycle)
+                        .filter(|total| *total <= cycle_limit)
+                };
+
+                if stage == Stage::OrderTxs {
+                    if let Some(total) = add_cycle(cycle_count) {
+                        cycle_count = total;
+                        order_tx_hashes.push(tx_hash.clone());
+                        continue;
+                    }
                     stage = stage.next();
-                    cycle_count = shared_tx.tx.raw.fee.cycle;
+                    cycle_count = 0;
+                    if shared_tx.is_proposed() {
+                        continue;
+                    }
                 }
 
-                match stage {
-                    Stage::OrderTxs => order_tx_hashes.push(tx_hash.clone()),
-                    Stage::ProposeTxs => propose_tx_hashes.push(tx_hash.clone()),
-                    Stage::Finished => {}
+                if let Some(total) = add_cycle(cycle_count) {
+                    cycle_count = total;
+                    propose_tx_hashes.push(tx_hash.clone());
+                } else {
+                    stage = stage.next();
                 }
             } else {
                 // Switch queue_roles
-- 
2.43.0


From 24f0c98fa6b06e1faa122ef5e59d8d2de9490615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 18/28] fix: a large timeout gap must not overflow

---
 core/mempool/src/adapter/mod.rs | 2 +-
 core/mempool/src/lib.rs         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mempool/src/adapter/mod.rs b/core/mempool/src/adapter/mod.rs
index cff2676..b4ea081 100644
--- a/core/mempool/src/adapter/mod.rs
+++ b/core/mempool/src/adapter/mod.rs
@@ -268,7 +268,7 @@ where
         let latest_epoch_id = latest_epoch.header.epoch_id;
         let timeout_gap = self.timeout_gap.load(Ordering::SeqCst);
 
-        if stx.raw.timeout > latest_epoch_id + timeout_gap {
+        if stx.raw.timeout > latest_epoch_id.saturating_add(timeout_gap) {
             let invalid_timeout = MemPoolError::InvalidTimeout {
                 tx_hash: stx.tx_hash,
             };
diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index 91f66e0..a6ee898 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -103,7 +103,7 @@ where
         self.tx_cache.package(
             cycle_limit,
             current_epoch_id,
-            current_epoch_id + self.timeout_gap,
+            current_epoch_id.saturating_add(self.timeout_gap),
         )
     }
 
-- 
2.43.0


From ac6b39f9b5b641944388baa69677de5dee9f0317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:17 +0000
Subject: [PATCH 19/28] fix: check transactions pulled from peers

---
 core/mempool/src/lib.rs | 44 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/core/mempool/src/lib.rs b/core/mempool/src/lib.rs
index a6ee898..91f4cfe 100644
--- a/core/mempool/src/lib.rs
+++ b/core/mempool/src/lib.rs
@@ -67,6 +67,23 @@ where
     pub fn get_adapter(&self) -> &Adapter {
         &self.adapter
     }
+
+    /// A transaction pulled from a peer is checked like a new one.
+    async fn check_pulled_tx(&self, ctx: &Context, tx: &SignedTransaction) -> ProtocolResult<()> {
+        self.adapter
+            .check_signature(ctx.clone(), tx.clone())
+            .await?;
+        self.adapter
+            .check_transaction(ctx.clone(), tx.clone())
+            .await
+    }
+
+    async fn check_propose_tx(&self, ctx: &Context, tx: &SignedTransaction) -> ProtocolResult<()> {
+        self.check_pulled_tx(ctx, tx).await?;
+        self.adapter
+            .check_storage_exist(ctx.clone(), tx.tx_hash.clone())
+            .await
+    }
 }
 
 #[async_trait]
@@ -148,7 +165,10 @@ where
         let unknown_hashes = self.tx_cache.show_unknown(order_tx_hashes);
         if !unknown_hashes.is_empty() {
             let unknown_len = unknown_hashes.len();
-            let txs = self.adapter.pull_txs(ctx.clone(), unknown_hashes).await?;
+            let txs = self
+                .adapter
+                .pull_txs(ctx.clone(), unknown_hashes.clone())
+                .await?;
             // Make sure response signed_txs is the same size of request hashes.
             if txs.len() != unknown_len {
                 return Err(MemPoolError::EnsureBreak {
@@ -157,6 +177,17 @@ where
                 }
                 .into());
             }
+            // Make sure response signed_txs are the requested ones.
+            for (tx, tx_hash) in txs.iter().zip(unknown_hashes.iter()) {
+                if &tx.tx_hash != tx_hash {
+                    return Err(MemPoolError::CheckHash {
+                        expect: tx_hash.clone(),
+                        actual: tx.tx_hash.clone(),
+                    }
+                    .into());
+                }
+                self.check_pulled_tx(&ctx, tx).await?;
+            }
             txs.into_iter().for_each(|tx| {
                 self.callback_cache.insert(tx.tx_hash.clone(), tx);
             });
@@ -173,11 +204,14 @@ where
         let unknown_hashes = self.tx_cache.show_unknown(propose_tx_hashes);
         if !unknown_hashes.is_empty() {
             let txs = self.adapter.pull_txs(ctx.clone(), unknown_hashes).await?;
-            txs.into_iter().for_each(|tx| {
+            for tx in txs {
                 // Should not handle error here, it is normal that transactions response here
-                // are exist in pool.
-                let _ = self.tx_cache.insert_propose_tx(tx);
-            });
+                // are exist in pool. A transaction that would be refused as a new one is
+                // skipped.
+                if self.check_propose_tx(&ctx, &tx).await.is_ok() {
+                    let _ = self.tx_cache.insert_propose_tx(tx);
+                }
+            }
         }
         Ok(())
     }
-- 
2.43.0


From b24bda2b2b482c5a0d6a98f1348f5106c9cac0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:38 +0000
Subject: [PATCH 20/28] fix: answer requests for transactions

---
 src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d694507..e87f46a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,8 +23,8 @@ use core_consensus::message::{
 use core_executor::trie::RocksTrieDB;
 use core_executor::TransactionExecutorFactory;
 use core_mempool::{
-    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, END_GOSSIP_NEW_TXS,
-    END_RESP_PULL_TXS, END_RPC_PULL_TXS,
+    DefaultMemPoolAdapter, HashMemPool, MsgPushTxs, NewTxsHandler, PullTxsHandler,
+    END_GOSSIP_NEW_TXS, END_RESP_PULL_TXS, END_RPC_PULL_TXS,
 };
 use core_network::{NetworkConfig, NetworkService};
 use core_storage::{adapter::rocks::RocksAdapter, ImplStorage};
@@ -215,7 +215,10 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
     network_service
         .register_endpoint_handler(
             END_RPC_PULL_TXS,
-            Box::new(NewTxsHandler::new(Arc::clone(&mempool))),
+            Box::new(PullTxsHandler::new(
+                network_service.handle(),
+                Arc::clone(&mempool),
+            )),
         )
         .unwrap();
 
-- 
2.43.0


From 51e9fc31a2531a081dea44544acfb6150fd1b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 21/28] fix: malformed consensus messages must not panic

---
 core/consensus/src/consensus.rs   | 7 +++++--
 core/consensus/src/fixed_types.rs | 5 ++++-
 core/consensus/src/util.rs        | 5 +++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 7fcd99d..1ab2861 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -72,7 +72,10 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         // Reveive the rich epoch ID.
         let epoch_id: FixedEpochID =
             deserialize(&msg).map_err(|_| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
-        let rich_epoch_id = epoch_id.inner - 1;
+        let rich_epoch_id = epoch_id
+            .inner
+            .checked_sub(1)
+            .ok_or_else(|| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
 
         // TODO: fix to get_epoch_by_epoch_id()
         let current_epoch_id = self
@@ -81,7 +84,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             .await
             .unwrap_or(1u64);
 
-        if current_epoch_id >= rich_epoch_id - 1 {
+        if current_epoch_id >= rich_epoch_id.saturating_sub(1) {
             return Ok(());
         }
 
diff --git a/core/consensus/src/fixed_types.rs b/core/consensus/src/fixed_types.rs
index 714af44..435dcfb 100644
--- a/core/consensus/src/fixed_types.rs
+++ b/core/consensus/src/fixed_types.rs
@@ -47,6 +47,9 @@ impl MessageCodec for ConsensusRpcResponse {
 
     async fn decode(mut bytes: Bytes) -> ProtocolResult<Self> {
         let len = bytes.len();
+        if len == 0 {
+            return Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into());
+        }
         let flag = bytes.split_off(len - 1);
 
         match flag.as_ref() {
@@ -60,7 +63,7 @@ impl MessageCodec for ConsensusRpcResponse {
                     .map_err(|_| ConsensusError::DecodeErr(MsgType::RpcPullTxs))?;
                 Ok(ConsensusRpcResponse::PullTxs(Box::new(res)))
             }
-            _ => unreachable!(),
+            _ => Err(ConsensusError::DecodeErr(MsgType::RpcPullEpochs).into()),
         }
     }
 }
diff --git a/core/consensus/src/util.rs b/core/consensus/src/util.rs
index be63645..a8ef7d9 100644
--- a/core/consensus/src/util.rs
+++ b/core/consensus/src/util.rs
@@ -39,6 +39,11 @@ impl Crypto for OverlordCrypto {
         mut signature: Bytes,
         hash: Bytes,
     ) -> Result<Bytes, Box<dyn Error + Send>> {
+        if signature.len() < 33 {
+            return Err(
+                ProtocolError::from(ConsensusError::Other("short signature".to_string())).into(),
+            );
+        }
         let tmp = signature.split_off(33);
         let pub_key = signature;
         let signature = tmp;
-- 
2.43.0


From 4234eb8117d981bf4ef6ca4e5b2364288c2a87b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 22/28] fix: keep the transactions of an epoch until it is
 saved

---
 core/consensus/src/engine.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index bb045c4..1957787 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -163,11 +163,6 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
             .get_full_txs(ctx.clone(), pill.epoch.ordered_tx_hashes.clone())
             .await?;
 
-        // TODO: parallelism
-        self.adapter
-            .flush_mempool(ctx.clone(), pill.epoch.ordered_tx_hashes.clone())
-            .await?;
-
         // Execute transactions
         let status = self.current_consensus_status.read().clone();
         let coinbase = Address::User(pill.epoch.header.proposer.clone());
@@ -187,9 +182,15 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
             ))
         })?;
 
+        let ordered_tx_hashes = pill.epoch.ordered_tx_hashes.clone();
         self.update_status(epoch_id, pill.epoch, proof, exec_resp, full_txs)
             .await?;
 
+        // The transactions are needed until the epoch is saved.
+        self.adapter
+            .flush_mempool(ctx.clone(), ordered_tx_hashes)
+            .await?;
+
         self.adapter
             .transmit(
                 ctx.clone(),
-- 
2.43.0


From f804235992e73bf02a90381f271f2e2ff0f634fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 23/28] fix: execute an epoch once

---
 core/consensus/src/consensus.rs | 12 ++++++------
 core/consensus/src/engine.rs    |  5 +++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 1ab2861..ccce3a1 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -77,6 +77,12 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             .checked_sub(1)
             .ok_or_else(|| ConsensusError::DecodeErr(MsgType::RichEpochID))?;
 
+        // Lock the consensus engine, block commit process.
+        let commit_lock = self.engine.lock.try_lock();
+        if commit_lock.is_none() {
+            return Ok(());
+        }
+
         // TODO: fix to get_epoch_by_epoch_id()
         let current_epoch_id = self
             .engine
@@ -88,12 +94,6 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             return Ok(());
         }
 
-        // Lock the consensus engine, block commit process.
-        let commit_lock = self.engine.lock.try_lock();
-        if commit_lock.is_none() {
-            return Ok(());
-        }
-
         info!("self {}, chain {}", current_epoch_id, rich_epoch_id);
         info!("consensus: start synchronization");
 
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index 1957787..c048987 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -143,6 +143,11 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
             );
         }
 
+        // A synchronization may have been faster.
+        if self.current_consensus_status.read().epoch_id != epoch_id {
+            return Err(ProtocolError::from(ConsensusError::MissingEpochHeader(epoch_id)).into());
+        }
+
         let pill = commit.content.inner;
 
         // Sorage save the lastest proof.
-- 
2.43.0


From b34c6f42dfeb0c9ce214f3bf4b33442b7caf41ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 24/28] fix: synchronize from the state after the latest epoch

---
 core/consensus/src/consensus.rs | 4 ++--
 core/consensus/src/engine.rs    | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index ccce3a1..3b3fa56 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -97,13 +97,13 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
         info!("self {}, chain {}", current_epoch_id, rich_epoch_id);
         info!("consensus: start synchronization");
 
-        let mut state_root = Hash::from_empty();
+        // The header of the current epoch has the state before its transactions.
+        let mut state_root = self.engine.get_current_state_root();
         let mut current_hash = if current_epoch_id != 0 {
             let current_epoch = self
                 .engine
                 .get_epoch_by_id(ctx.clone(), current_epoch_id)
                 .await?;
-            state_root = current_epoch.header.state_root.clone();
             let tmp = Hash::digest(current_epoch.encode_fixed()?);
 
             // Check epoch for the first time.
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index c048987..caf07a0 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -409,6 +409,10 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.adapter.save_proof(ctx, proof).await
     }
 
+    pub fn get_current_state_root(&self) -> MerkleRoot {
+        self.current_consensus_status.read().state_root.clone()
+    }
+
     pub fn get_current_interval(&self) -> u64 {
         let current_consensus_status = self.current_consensus_status.read();
         current_consensus_status.consensus_interval
-- 
2.43.0


From 2897170c8607eb732a9c168088d55d3122c6b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:14 +0000
Subject: [PATCH 25/28] fix: check proposed and synchronized epochs and their
 transactions

---
 core/consensus/src/adapter.rs   | 24 ++++++++++++++++++++++--
 core/consensus/src/consensus.rs | 31 +++----------------------------
 core/consensus/src/engine.rs    | 31 ++++++++++++++++++++++++++-----
 3 files changed, 51 insertions(+), 35 deletions(-)

diff --git a/core/consensus/src/adapter.rs b/core/consensus/src/adapter.rs
index a4d0e6b..7a24ea1 100644
--- a/core/consensus/src/adapter.rs
+++ b/core/consensus/src/adapter.rs
@@ -5,6 +5,8 @@ use std::sync::Arc;
 use async_trait::async_trait;
 use log::debug;
 
+use common_crypto::{Crypto, Secp256k1};
+use protocol::fixed_codec::ProtocolFixedCodec;
 use protocol::traits::executor::{ExecutorExecResp, ExecutorFactory, TrieDB};
 use protocol::traits::{
     ConsensusAdapter, Context, Gossip, MemPool, MessageTarget, MixedTxHashes, NodeInfo, Priority,
@@ -18,6 +20,21 @@ use protocol::ProtocolResult;
 use crate::fixed_types::{ConsensusRpcRequest, ConsensusRpcResponse, PullTxsRequest};
 use crate::{ConsensusError, MsgType};
 
+/// A peer must supply exactly the transactions asked for, as they were signed.
+fn check_pulled_txs(hashes: &[Hash], txs: &[SignedTransaction]) -> ProtocolResult<()> {
+    if hashes.len() != txs.len() {
+        return Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into());
+    }
+    for (hash, tx) in hashes.iter().zip(txs) {
+        if tx.tx_hash != *hash || Hash::digest(tx.raw.encode_fixed()?) != *hash {
+            return Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into());
+        }
+        Secp256k1::verify_signature(&hash.as_bytes(), &tx.signature, &tx.pubkey)
+            .map_err(|e| ConsensusError::CryptoErr(Box::new(e)))?;
+    }
+    Ok(())
+}
+
 pub struct OverlordConsensusAdapter<
     EF: ExecutorFactory<DB>,
     G: Gossip,
@@ -177,7 +194,7 @@ where
         hashes: Vec<Hash>,
         end: &str,
     ) -> ProtocolResult<Vec<SignedTransaction>> {
-        let msg = PullTxsRequest::new(hashes);
+        let msg = PullTxsRequest::new(hashes.clone());
         let res = self
             .rpc
             .call::<ConsensusRpcRequest, ConsensusRpcResponse>(
@@ -189,7 +206,10 @@ where
             .await?;
 
         match res {
-            ConsensusRpcResponse::PullTxs(txs) => Ok(txs.inner),
+            ConsensusRpcResponse::PullTxs(txs) => {
+                check_pulled_txs(&hashes, &txs.inner)?;
+                Ok(txs.inner)
+            }
             _ => Err(ConsensusError::RpcErr(MsgType::RpcPullTxs).into()),
         }
     }
diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 3b3fa56..4f7155f 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -12,8 +12,8 @@ use parking_lot::RwLock;
 use common_crypto::{PrivateKey, Secp256k1PrivateKey};
 
 use protocol::traits::{Consensus, ConsensusAdapter, CurrentConsensusStatus, NodeInfo};
-use protocol::types::{Address, Hash, Proof, Validator};
-use protocol::{fixed_codec::ProtocolFixedCodec, ProtocolResult};
+use protocol::types::{Address, Proof, Validator};
+use protocol::ProtocolResult;
 
 use crate::engine::ConsensusEngine;
 use crate::fixed_types::{FixedEpochID, FixedPill, FixedSignedTxs};
@@ -99,27 +99,6 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
 
         // The header of the current epoch has the state before its transactions.
         let mut state_root = self.engine.get_current_state_root();
-        let mut current_hash = if current_epoch_id != 0 {
-            let current_epoch = self
-                .engine
-                .get_epoch_by_id(ctx.clone(), current_epoch_id)
-                .await?;
-            let tmp = Hash::digest(current_epoch.encode_fixed()?);
-
-            // Check epoch for the first time.
-            let epoch_header = self
-                .engine
-                .pull_epoch(ctx.clone(), current_epoch_id + 1)
-                .await?
-                .header;
-            self.check_proof(current_epoch_id + 1, epoch_header.proof.clone())?;
-            if tmp != epoch_header.pre_hash {
-                return Err(ConsensusError::SyncEpochHashErr(current_epoch_id + 1).into());
-            }
-            tmp
-        } else {
-            Hash::from_empty()
-        };
 
         // Start to synchronization.
         for id in (current_epoch_id + 1)..=rich_epoch_id {
@@ -133,9 +112,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
             debug!("consensus: synchronization check proof and previous hash");
             let proof = epoch.header.proof.clone();
             self.check_proof(id, proof.clone())?;
-            if id != 1 && current_hash != epoch.header.pre_hash {
-                return Err(ConsensusError::SyncEpochHashErr(id).into());
-            }
+            self.engine.check_link(id, &epoch)?;
             self.engine.save_proof(ctx.clone(), proof.clone()).await?;
 
             // Then pull signed transactions.
@@ -168,9 +145,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
                 .update_status(epoch.header.epoch_id, epoch.clone(), proof, exec_resp, txs)
                 .await?;
 
-            // Update the previous hash and last epoch.
             info!("consensus: finish synchronization {} epoch", id);
-            current_hash = Hash::digest(epoch.encode_fixed()?);
         }
 
         debug!(
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index caf07a0..ba0c773 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -101,10 +101,14 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
     async fn check_epoch(
         &self,
         ctx: Context,
-        _epoch_id: u64,
+        epoch_id: u64,
         hash: Bytes,
         epoch: FixedPill,
     ) -> Result<FixedSignedTxs, Box<dyn Error + Send>> {
+        if Hash::digest(epoch.inner.encode_fixed()?).as_bytes() != hash {
+            return Err(ProtocolError::from(ConsensusError::SyncEpochHashErr(epoch_id)).into());
+        }
+
         let order_hashes = epoch.get_ordered_hashes();
         let exemption = {
             let set = self.exemption_hash.read();
@@ -113,6 +117,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
         // If the epoch is proposed by self, it does not need to check. Get full signed
         // transactions directly.
         if !exemption {
+            self.check_link(epoch_id, &epoch.inner.epoch)?;
             self.adapter
                 .sync_txs(ctx.clone(), epoch.get_propose_hashes())
                 .await?;
@@ -317,10 +322,6 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         self.adapter.pull_txs(ctx, hashes, RPC_SYNC_PULL).await
     }
 
-    pub async fn get_epoch_by_id(&self, ctx: Context, epoch_id: u64) -> ProtocolResult<Epoch> {
-        self.adapter.get_epoch_by_id(ctx, epoch_id).await
-    }
-
     pub async fn exec(
         &self,
         state_root: MerkleRoot,
@@ -405,6 +406,26 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
         Ok(())
     }
 
+    /// An epoch must follow the latest one and name its own transactions.
+    pub fn check_link(&self, epoch_id: u64, epoch: &Epoch) -> ProtocolResult<()> {
+        let status = self.current_consensus_status.read();
+        let header = &epoch.header;
+        let order_root = Merkle::from_hashes(epoch.ordered_tx_hashes.clone())
+            .get_root_hash()
+            .unwrap_or_else(Hash::from_empty);
+
+        if status.epoch_id != epoch_id
+            || header.epoch_id != epoch_id
+            || header.chain_id != self.node_info.chain_id
+            || header.pre_hash != status.prev_hash
+            || header.state_root != status.state_root
+            || header.order_root != order_root
+        {
+            return Err(ConsensusError::SyncEpochHashErr(epoch_id).into());
+        }
+        Ok(())
+    }
+
     pub async fn save_proof(&self, ctx: Context, proof: Proof) -> ProtocolResult<()> {
         self.adapter.save_proof(ctx, proof).await
     }
-- 
2.43.0


From a34ba82ded37f0e6f7da045be08517abf7d8cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:26 +0000
Subject: [PATCH 26/28] fix: resume from the state after the latest epoch

---
 core/consensus/src/consensus.rs |  2 +-
 core/consensus/src/engine.rs    | 67 +++++++++++++++------------------
 core/consensus/src/util.rs      | 40 +++++++++++++++++++-
 src/main.rs                     | 13 ++++++-
 4 files changed, 82 insertions(+), 40 deletions(-)

diff --git a/core/consensus/src/consensus.rs b/core/consensus/src/consensus.rs
index 4f7155f..e88470b 100644
--- a/core/consensus/src/consensus.rs
+++ b/core/consensus/src/consensus.rs
@@ -142,7 +142,7 @@ impl<Adapter: ConsensusAdapter + 'static> Consensus for OverlordConsensus<Adapte
 
             debug!("consensus: synchronization update the rich status");
             self.engine
-                .update_status(epoch.header.epoch_id, epoch.clone(), proof, exec_resp, txs)
+                .update_status(epoch.clone(), proof, exec_resp, txs)
                 .await?;
 
             info!("consensus: finish synchronization {} epoch", id);
diff --git a/core/consensus/src/engine.rs b/core/consensus/src/engine.rs
index ba0c773..00f8a13 100644
--- a/core/consensus/src/engine.rs
+++ b/core/consensus/src/engine.rs
@@ -193,7 +193,7 @@ impl<Adapter: ConsensusAdapter + 'static> Engine<FixedPill, FixedSignedTxs>
         })?;
 
         let ordered_tx_hashes = pill.epoch.ordered_tx_hashes.clone();
-        self.update_status(epoch_id, pill.epoch, proof, exec_resp, full_txs)
+        self.update_status(pill.epoch, proof, exec_resp, full_txs)
             .await?;
 
         // The transactions are needed until the epoch is saved.
@@ -352,7 +352,6 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
     /// 5. Save the receipt.
     pub async fn update_status(
         &self,
-        epoch_id: u64,
         epoch: Epoch,
         proof: Proof,
         exec_resp: ExecutorExecResp,
@@ -370,40 +369,8 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
             .save_epoch(Context::new(), epoch.clone())
             .await?;
 
-        let prev_hash = Hash::digest(epoch.encode_fixed()?);
-        {
-            let mut current_consensus_status = self.current_consensus_status.write();
-            current_consensus_status.epoch_id = epoch_id + 1;
-            current_consensus_status.prev_hash = prev_hash;
-            current_consensus_status.proof = proof;
-
-            // Update state root
-            current_consensus_status.state_root = exec_resp.state_root.clone();
-
-            // Update order root
-            let ordered_root = Merkle::from_hashes(epoch.ordered_tx_hashes.clone())
-                .get_root_hash()
-                .unwrap_or_else(Hash::from_empty);
-            current_consensus_status.order_root = ordered_root.clone();
-
-            // Update confirm root
-            current_consensus_status.confirm_root = vec![ordered_root];
-
-            // Update receipt root
-            current_consensus_status.receipt_root = {
-                let receipt_root = Merkle::from_hashes(
-                    exec_resp
-                        .receipts
-                        .iter()
-                        .map(|receipt| Hash::digest(receipt.to_owned().encode_fixed().unwrap()))
-                        .collect::<Vec<_>>(),
-                )
-                .get_root_hash()
-                .unwrap_or_else(Hash::from_empty);
-                vec![receipt_root]
-            };
-        }
-        Ok(())
+        let mut current_consensus_status = self.current_consensus_status.write();
+        apply_epoch(&mut current_consensus_status, &epoch, proof, &exec_resp)
     }
 
     /// An epoch must follow the latest one and name its own transactions.
@@ -445,6 +412,34 @@ impl<Adapter: ConsensusAdapter + 'static> ConsensusEngine<Adapter> {
     }
 }
 
+/// The status after an epoch.
+pub fn apply_epoch(
+    status: &mut CurrentConsensusStatus,
+    epoch: &Epoch,
+    proof: Proof,
+    exec_resp: &ExecutorExecResp,
+) -> ProtocolResult<()> {
+    let mut receipts = Vec::with_capacity(exec_resp.receipts.len());
+    for receipt in exec_resp.receipts.iter() {
+        receipts.push(Hash::digest(receipt.encode_fixed()?));
+    }
+    let receipt_root = Merkle::from_hashes(receipts)
+        .get_root_hash()
+        .unwrap_or_else(Hash::from_empty);
+    let ordered_root = Merkle::from_hashes(epoch.ordered_tx_hashes.clone())
+        .get_root_hash()
+        .unwrap_or_else(Hash::from_empty);
+
+    status.prev_hash = Hash::digest(epoch.encode_fixed()?);
+    status.epoch_id = epoch.header.epoch_id + 1;
+    status.proof = proof;
+    status.state_root = exec_resp.state_root.clone();
+    status.order_root = ordered_root.clone();
+    status.confirm_root = vec![ordered_root];
+    status.receipt_root = vec![receipt_root];
+    Ok(())
+}
+
 fn covert_to_overlord_authority(validators: &[Validator]) -> Vec<Node> {
     let mut authority = validators
         .iter()
diff --git a/core/consensus/src/util.rs b/core/consensus/src/util.rs
index a8ef7d9..618cd3b 100644
--- a/core/consensus/src/util.rs
+++ b/core/consensus/src/util.rs
@@ -1,4 +1,5 @@
 use std::error::Error;
+use std::sync::Arc;
 
 use bytes::Bytes;
 use overlord::{types::AggregatedSignature, Crypto};
@@ -8,9 +9,12 @@ use common_crypto::{
     Secp256k1PublicKey, Signature,
 };
 
-use protocol::types::{Hash, UserAddress};
-use protocol::ProtocolError;
+use protocol::traits::executor::{Executor, ExecutorFactory, TrieDB};
+use protocol::traits::CurrentConsensusStatus;
+use protocol::types::{Address, Epoch, Hash, Proof, SignedTransaction, UserAddress};
+use protocol::{ProtocolError, ProtocolResult};
 
+use crate::engine::apply_epoch;
 use crate::ConsensusError;
 
 #[derive(Clone, Debug)]
@@ -70,6 +74,38 @@ impl Crypto for OverlordCrypto {
     }
 }
 
+/// The header of the latest epoch has the results of the epoch before it, so a
+/// node that starts again executes the latest epoch to know where it stopped.
+pub fn resume<EF: ExecutorFactory<DB>, DB: TrieDB>(
+    status: &mut CurrentConsensusStatus,
+    epoch: &Epoch,
+    txs: Vec<SignedTransaction>,
+    latest_proof: Proof,
+    trie_db: Arc<DB>,
+) -> ProtocolResult<()> {
+    let header = &epoch.header;
+    if header.epoch_id == 0 {
+        // The genesis has its own state.
+        return Ok(());
+    }
+
+    let proof = if latest_proof.epoch_id == header.epoch_id {
+        latest_proof
+    } else {
+        header.proof.clone()
+    };
+    let mut executor = EF::from_root(
+        header.chain_id.clone(),
+        header.state_root.clone(),
+        trie_db,
+        header.epoch_id,
+        status.cycles_price,
+        Address::User(header.proposer.clone()),
+    )?;
+    let exec_resp = executor.exec(txs)?;
+    apply_epoch(status, epoch, proof, &exec_resp)
+}
+
 impl OverlordCrypto {
     pub fn new(public_key: Secp256k1PublicKey, private_key: Secp256k1PrivateKey) -> Self {
         OverlordCrypto {
diff --git a/src/main.rs b/src/main.rs
index e87f46a..ea61d4b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -20,6 +20,7 @@ use core_consensus::message::{
     VoteMessageHandler, END_GOSSIP_AGGREGATED_VOTE, END_GOSSIP_RICH_EPOCH_ID,
     END_GOSSIP_SIGNED_PROPOSAL, END_GOSSIP_SIGNED_VOTE, RPC_RESP_SYNC_PULL, RPC_SYNC_PULL,
 };
+use core_consensus::util::resume;
 use core_executor::trie::RocksTrieDB;
 use core_executor::TransactionExecutorFactory;
 use core_mempool::{
@@ -253,7 +254,7 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
     let current_header = &current_epoch.header;
     let prevhash = Hash::digest(current_epoch.encode_fixed()?);
 
-    let current_consensus_status = CurrentConsensusStatus {
+    let mut current_consensus_status = CurrentConsensusStatus {
         cycles_price:       cfg.consensus.cycles_price,
         cycles_limit:       cfg.consensus.cycles_limit,
         epoch_id:           current_epoch.header.epoch_id + 1,
@@ -278,6 +279,16 @@ async fn start(cfg: &Config) -> ProtocolResult<()> {
         consensus_interval: cfg.consensus.interval,
     };
 
+    resume::<TransactionExecutorFactory, _>(
+        &mut current_consensus_status,
+        &current_epoch,
+        storage
+            .get_transactions(current_epoch.ordered_tx_hashes.clone())
+            .await?,
+        storage.get_latest_proof().await?,
+        Arc::clone(&trie_db),
+    )?;
+
     let overlord_consensus = Arc::new(OverlordConsensus::new(
         current_consensus_status,
         node_info,
-- 
2.43.0


From b078a614b72c72743bec9af74abe1bd99c917775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:18 +0000
Subject: [PATCH 27/28] verif hooks: the core protocols

---
 core/network/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/network/src/lib.rs b/core/network/src/lib.rs
index 48b01b0..9e04fe2 100644
--- a/core/network/src/lib.rs
+++ b/core/network/src/lib.rs
@@ -31,6 +31,7 @@ pub mod verif_hooks {
         message::*,
         outbound::*,
         peer_manager::*,
+        protocols::*,
         reactor::{DummyHandler, Reactor},
         rpc_map::RpcMap,
         traits::*,
-- 
2.43.0


From af8c08cb91ca49deb462a0c3a9c577c8ee1094a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:24 +0000
Subject: [PATCH 28/28] fix: bootstrapping forgot the addresses loaded of a
 bootstrap peer

---
 core/network/src/peer_manager/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/network/src/peer_manager/mod.rs b/core/network/src/peer_manager/mod.rs
index 8b87489..e3fe6c6 100644
--- a/core/network/src/peer_manager/mod.rs
+++ b/core/network/src/peer_manager/mod.rs
@@ -572,7 +572,14 @@ impl PeerManager {
         for peer in peers.iter() {
             info!("network: {:?}: bootstrap peer: {}", self.peer_id, peer);
 
-            self.inner.add_peer(peer.clone());
+            // A peer loaded from persistence keeps the addresses learned
+            if self.inner.peer_exist(peer.id()) {
+                for addr in peer.owned_addrs() {
+                    self.inner.add_peer_addr(peer.id(), addr);
+                }
+            } else {
+                self.inner.add_peer(peer.clone());
+            }
             self.inner.connect_peer(peer.id());
         }
 
-- 
2.43.0

