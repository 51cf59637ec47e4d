From 3ee0759ed797c925432456e32796cce7e24251f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:08 +0000
Subject: [PATCH 01/39] fix: rolling the chain back also undoes the deposit
 index, upgrade votes and size limit

---
 src/CryptoNoteCore/Blockchain.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4d88c20..a650897 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3284,10 +3284,19 @@ namespace cn
     m_timestampIndex.remove(m_blocks.back().bl.timestamp, blockHash);
     m_generatedTransactionsIndex.remove(m_blocks.back().bl);
 
+    m_depositIndex.popBlock();
     m_blocks.pop_back();
     m_blockIndex.pop();
 
     assert(m_blockIndex.size() == m_blocks.size());
+
+    m_upgradeDetectorV2.blockPopped();
+    m_upgradeDetectorV3.blockPopped();
+    m_upgradeDetectorV4.blockPopped();
+    m_upgradeDetectorV7.blockPopped();
+    m_upgradeDetectorV8.blockPopped();
+
+    update_next_comulative_size_limit();
     return true;
   }
 
-- 
2.43.0


From 6913fac9f57ac30fcd7e4eb6ce9df5c60e878be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 02/39] fix: difficulty of an alternative block follows its own
 height, not the main chain's

---
 src/CryptoNoteCore/Blockchain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index a650897..6ed29d6 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1323,7 +1323,7 @@ namespace cn
   {
     std::vector<uint64_t> timestamps;
     std::vector<difficulty_type> commulative_difficulties;
-    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(static_cast<uint32_t>(m_blocks.size()));
+    uint8_t BlockMajorVersion = getBlockMajorVersionForHeight(bei.height);
 
     if (alt_chain.size() < m_currency.difficultyBlocksCountByBlockVersion(BlockMajorVersion))
     {
@@ -1377,7 +1377,7 @@ namespace cn
       }
     }
 
-    uint64_t block_index = m_blocks.size();
+    uint64_t block_index = bei.height;
     uint8_t block_major_version = get_block_major_version_for_height(block_index + 1);
 
     if (block_major_version >= 8)
-- 
2.43.0


From 8b94c659e18f7579a1f5546796921e0c0734155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 03/39] fix: a block that spends an output created in itself is
 refused cleanly

---
 src/CryptoNoteCore/Blockchain.cpp | 7 +++++++
 src/CryptoNoteCore/Blockchain.h   | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 6ed29d6..be3995a 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3175,6 +3175,13 @@ namespace cn
       return false;
     }
 
+    if (outputIndex.transactionIndex.block >= m_blocks.size())
+    {
+      logger(DEBUGGING) << "Transaction << " << transactionHash << " contains multisignature input which points to an output of the block that is being added.";
+
+      return false;
+    }
+
     const Transaction &outputTransaction = m_blocks[outputIndex.transactionIndex.block].transactions[outputIndex.transactionIndex.transaction].tx;
     if (!is_tx_spendtime_unlocked(outputTransaction.unlockTime))
     {
diff --git a/src/CryptoNoteCore/Blockchain.h b/src/CryptoNoteCore/Blockchain.h
index 79506dc..8de07af 100644
--- a/src/CryptoNoteCore/Blockchain.h
+++ b/src/CryptoNoteCore/Blockchain.h
@@ -399,6 +399,12 @@ namespace cn
         return false;
       }
 
+      if (amount_outs_vec[i].first.block >= m_blocks.size())
+      {
+        logger(logging::INFO) << "Input refers to an output of the block that is being added";
+        return false;
+      }
+
       const TransactionEntry &tx = transactionByIndex(amount_outs_vec[i].first);
 
       if (!(amount_outs_vec[i].second < tx.tx.outputs.size()))
-- 
2.43.0


From 5b8bb5803952f99b2cf59aa11e61acfad38df0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 04/39] fix: a coinbase with a multisignature output in an old
 transaction version no longer crashes the node

---
 src/CryptoNoteCore/CryptoNoteFormatUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
index 4bcf6ea..bdf678b 100644
--- a/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
+++ b/src/CryptoNoteCore/CryptoNoteFormatUtils.cpp
@@ -317,7 +317,9 @@ bool check_outs_valid(const TransactionPrefix& tx, std::string* error) {
       }
     } else if (out.target.type() == typeid(MultisignatureOutput)) {
       if (tx.version < TRANSACTION_VERSION_2) {
-        *error = "Transaction contains multisignature output but its version is less than 2";
+        if (error) {
+          *error = "Transaction contains multisignature output but its version is less than 2";
+        }
         return false;
       }
 
-- 
2.43.0


From 0ea3f23e6cb9dfcb2364c8770b5b716b933cafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 05/39] fix: a block above the size limit leaves no
 transactions behind in the indexes

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index be3995a..6f2f07a 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2764,6 +2764,7 @@ namespace cn
     if (!checkCumulativeBlockSize(blockHash, cumulative_block_size, block.height))
     {
       bvc.m_verification_failed = true;
+      popTransactions(block, minerTransactionHash);
       return false;
     }
 
-- 
2.43.0


From 10f45b5001765039cc36564928aaaab25b6da53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 06/39] fix: pool transactions with spent multisignature inputs
 are not offered for the next block

---
 src/CryptoNoteCore/Blockchain.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 6f2f07a..0db5978 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -428,6 +428,16 @@ namespace cn
           return false;
         }
       }
+      else if (std::any_of(tx.inputs.begin(), tx.inputs.end(), [](const TransactionInput &in) { return in.type() == typeid(MultisignatureInput); }))
+      {
+        // multisignature inputs are not bound to the max used block and are not key images:
+        // the output may have been spent or removed since the last check
+        if (!checkTransactionInputs(tx, maxUsedBlock.height, maxUsedBlock.id, &tail))
+        {
+          lastFailed = tail;
+          return false;
+        }
+      }
     }
 
     return true;
-- 
2.43.0


From 1cdf014b33f9419a688da059b7b4414084cc1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 07/39] fix: a valid switch to a heavier branch is not undone
 when the abandoned blocks cannot be kept

---
 src/CryptoNoteCore/Blockchain.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 0db5978..e317972 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -1268,9 +1268,9 @@ namespace cn
           bool r = handle_alternative_block(old_ch_ent, get_block_hash(old_ch_ent), bvc, false);
           if (!r)
           {
-            logger(ERROR, BRIGHT_RED) << "Failed to push ex-main chain blocks to alternative chain ";
-            rollback_blockchain_switching(disconnected_chain, split_height);
-            return false;
+            // the switch itself is complete and valid: the abandoned blocks are just not kept as an alternative
+            logger(WARNING, BRIGHT_YELLOW) << "Failed to push ex-main chain blocks to alternative chain ";
+            break;
           }
         }
       }
-- 
2.43.0


From e5729dbf474c392e297430bc87f785404209b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 08/39] fix: interest paid in a block that deposits as much as
 it withdraws is counted

---
 src/CryptoNoteCore/DepositIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/DepositIndex.cpp b/src/CryptoNoteCore/DepositIndex.cpp
index 29979c0..923e439 100644
--- a/src/CryptoNoteCore/DepositIndex.cpp
+++ b/src/CryptoNoteCore/DepositIndex.cpp
@@ -71,7 +71,7 @@ void DepositIndex::pushBlock(DepositAmount amount, DepositInterest interest) {
   assert(!sumWillOverflow(amount, lastAmount));
   assert(!sumWillOverflow(interest, lastInterest));
   assert(amount + lastAmount >= 0);
-  if (amount != 0) {
+  if (amount != 0 || interest != 0) {
     index.push_back({blockCount, amount + lastAmount, interest + lastInterest});
   }
 
-- 
2.43.0


From 63dd7056003acc6ac1436f5397e0c47e869d46a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 09/39] fix: payment id queries see pooled transactions and
 transactions that are only in the chain

---
 src/CryptoNoteCore/Core.cpp            | 7 +++----
 src/CryptoNoteCore/TransactionPool.cpp | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/CryptoNoteCore/Core.cpp b/src/CryptoNoteCore/Core.cpp
index 99c3eb6..35b285b 100644
--- a/src/CryptoNoteCore/Core.cpp
+++ b/src/CryptoNoteCore/Core.cpp
@@ -1019,12 +1019,11 @@ bool core::getPoolTransactionsByTimestamp(uint64_t timestampBegin, uint64_t time
 
 bool core::getTransactionsByPaymentId(const crypto::Hash& paymentId, std::vector<Transaction>& transactions) {
   std::vector<crypto::Hash> blockchainTransactionHashes;
-  if (!m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes)) {
-    return false;
-  }
+  bool found = m_blockchain.getTransactionIdsByPaymentId(paymentId, blockchainTransactionHashes);
 
   std::vector<crypto::Hash> poolTransactionHashes;
-  if (!m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes)) {
+  found = m_mempool.getTransactionIdsByPaymentId(paymentId, poolTransactionHashes) || found;
+  if (!found) {
     return false;
   }
 
diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index c8ffa06..286f1da 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -257,8 +257,8 @@ namespace cn
         logger(WARNING, BRIGHT_YELLOW) << " Transaction already exists at inserting in memory pool";
         return false;
       }
-      m_paymentIdIndex.add(txd.tx);
-      m_timestampIndex.add(txd.receiveTime, txd.id);
+      m_paymentIdIndex.add(txd_p.first->tx);
+      m_timestampIndex.add(txd_p.first->receiveTime, txd_p.first->id);
 
       if (ttl.ttl != 0)
       {
-- 
2.43.0


From ecd35309487881351d562a3b1db15701c44db54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 10/39] fix: a length field in a message no longer reserves
 gigabytes of memory

Reading a container allocated the announced number of items (up to 128M)
before looking at the data, so a transaction of ten bytes took more than
10 GB. Items are now created as they are read.
---
 .../CryptoNoteSerialization.cpp               | 15 ++++++++++----
 src/Serialization/SerializationOverloads.h    | 20 +++++++++++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/CryptoNoteCore/CryptoNoteSerialization.cpp b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
index d54df16..e5e7a2b 100644
--- a/src/CryptoNoteCore/CryptoNoteSerialization.cpp
+++ b/src/CryptoNoteCore/CryptoNoteSerialization.cpp
@@ -129,10 +129,17 @@ bool serializeVarintVector(std::vector<uint32_t>& vector, cn::ISerializer& seria
     return false;
   }
 
-  vector.resize(size);
-
-  for (size_t i = 0; i < size; ++i) {
-    serializer(vector[i], "");
+  if (serializer.type() == cn::ISerializer::INPUT) {
+    // the announced size comes from outside, an item takes memory only once the data holds it
+    vector.clear();
+    for (size_t i = 0; i < size; ++i) {
+      vector.emplace_back();
+      serializer(vector.back(), "");
+    }
+  } else {
+    for (size_t i = 0; i < size; ++i) {
+      serializer(vector[i], "");
+    }
   }
 
   serializer.endArray();
diff --git a/src/Serialization/SerializationOverloads.h b/src/Serialization/SerializationOverloads.h
index 205de35..448fd7f 100644
--- a/src/Serialization/SerializationOverloads.h
+++ b/src/Serialization/SerializationOverloads.h
@@ -109,11 +109,23 @@ bool serializeContainer(Cont &value, common::StringView name, cn::ISerializer &s
     return false;
   }
 
-  value.resize(size);
-
-  for (auto &item : value)
+  if (serializer.type() == ISerializer::INPUT)
   {
-    serializer(const_cast<typename Cont::value_type &>(item), "");
+    /* The announced size comes from outside, an item takes memory only once
+       the data holds it */
+    value.clear();
+    for (size_t i = 0; i < size; ++i)
+    {
+      value.emplace_back();
+      serializer(value.back(), "");
+    }
+  }
+  else
+  {
+    for (auto &item : value)
+    {
+      serializer(const_cast<typename Cont::value_type &>(item), "");
+    }
   }
 
   serializer.endArray();
-- 
2.43.0


From 8775b747106eaf46aa8593ded5bec5775804c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 11/39] fix: base64 encoding of bytes above 127 read outside
 its table

A char was used as an unsigned index, so credentials with a non-ASCII
character crashed the process or produced garbage.
---
 src/Common/Base64.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Common/Base64.cpp b/src/Common/Base64.cpp
index 38d905f..eba35aa 100644
--- a/src/Common/Base64.cpp
+++ b/src/Common/Base64.cpp
@@ -17,6 +17,8 @@
 
 #include "Base64.h"
 
+#include <cstdint>
+
 namespace tools
 {
   namespace base_64
@@ -28,9 +30,9 @@ namespace tools
       result.reserve(resultSize);
 
       for (size_t i = 0; i < data.size(); i += 3) {
-        size_t a = static_cast<size_t>(data[i]);
-        size_t b = i + 1 < data.size() ? static_cast<size_t>(data[i + 1]) : 0;
-        size_t c = i + 2 < data.size() ? static_cast<size_t>(data[i + 2]) : 0;
+        size_t a = static_cast<uint8_t>(data[i]);
+        size_t b = i + 1 < data.size() ? static_cast<uint8_t>(data[i + 1]) : 0;
+        size_t c = i + 2 < data.size() ? static_cast<uint8_t>(data[i + 2]) : 0;
 
         result.push_back(encodingTable[a >> 2]);
         result.push_back(encodingTable[((a & 0x3) << 4) | (b >> 4)]);
-- 
2.43.0


From aa9b08a1f8de8237b8a24e137cce3b64e6b0acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 12/39] fix: recovery phrases with capital letters gave another
 key

The words were checked in lower case but looked up as typed, so a phrase
with a capital letter was refused or silently restored another key.
---
 src/Mnemonics/Mnemonics.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Mnemonics/Mnemonics.cpp b/src/Mnemonics/Mnemonics.cpp
index 6bd7b2e..7ea6b67 100644
--- a/src/Mnemonics/Mnemonics.cpp
+++ b/src/Mnemonics/Mnemonics.cpp
@@ -30,8 +30,15 @@ namespace mnemonics
 
     /* Note - if the returned string is not empty, it is an error message, and
        the returned secret key is not initialized. */
-    crypto::SecretKey mnemonicToPrivateKey(const std::vector<std::string> &words)
+    crypto::SecretKey mnemonicToPrivateKey(const std::vector<std::string> &mnemonicWords)
     {
+        /* Convert to lower case */
+        std::vector<std::string> words = mnemonicWords;
+        for (auto &word : words)
+        {
+            std::transform(word.begin(), word.end(), word.begin(), ::tolower);
+        }
+
         const size_t len = words.size();
 
         /* Mnemonics must be 25 words long */
@@ -45,11 +52,8 @@ namespace mnemonics
         }
 
         /* All words must be present in the word list */
-        for (auto word : words)
+        for (const auto &word : words)
         {
-            /* Convert to lower case */
-            std::transform(word.begin(), word.end(), word.begin(), ::tolower);
-
             if (std::find(WordList::English.begin(),
                           WordList::English.end(), word) == WordList::English.end())
             {
-- 
2.43.0


From 86aadfbdf6c27323c19898dae9d5c7394e290c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:07 +0000
Subject: [PATCH 13/39] fix: refuse binary messages nested so deep that reading
 them exhausts the stack

---
 .../KVBinaryInputStreamSerializer.cpp         | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/Serialization/KVBinaryInputStreamSerializer.cpp b/src/Serialization/KVBinaryInputStreamSerializer.cpp
index f39c903..0222243 100644
--- a/src/Serialization/KVBinaryInputStreamSerializer.cpp
+++ b/src/Serialization/KVBinaryInputStreamSerializer.cpp
@@ -95,26 +95,35 @@ void readName(common::IInputStream& s, std::string& name) {
   }
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type);
-JsonValue loadSection(common::IInputStream& stream);
-JsonValue loadEntry(common::IInputStream& stream);
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType);
+// Sections and arrays nest only a few levels deep in any message, a deeper one would exhaust the stack
+const size_t MAX_NESTING_DEPTH = 100;
 
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth);
+JsonValue loadSection(common::IInputStream& stream, size_t depth);
+JsonValue loadEntry(common::IInputStream& stream, size_t depth);
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth);
 
-JsonValue loadSection(common::IInputStream& stream) {
+void checkDepth(size_t depth) {
+  if (depth > MAX_NESTING_DEPTH) {
+    throw std::runtime_error("Data is nested too deep");
+  }
+}
+
+JsonValue loadSection(common::IInputStream& stream, size_t depth) {
+  checkDepth(depth);
   JsonValue sec(JsonValue::OBJECT);
   size_t count = readVarint(stream);
   std::string name;
 
   while (count--) {
     readName(stream, name);
-    sec.insert(name, loadEntry(stream));
+    sec.insert(name, loadEntry(stream, depth));
   }
 
   return sec;
 }
 
-JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
+JsonValue loadValue(common::IInputStream& stream, uint8_t type, size_t depth) {
   switch (type) {
   case BIN_KV_SERIALIZE_TYPE_INT64:  return readIntegerJson<int64_t>(stream);
   case BIN_KV_SERIALIZE_TYPE_INT32:  return readIntegerJson<int32_t>(stream);
@@ -127,30 +136,31 @@ JsonValue loadValue(common::IInputStream& stream, uint8_t type) {
   case BIN_KV_SERIALIZE_TYPE_DOUBLE: return readPodJson<double>(stream);
   case BIN_KV_SERIALIZE_TYPE_BOOL:   return JsonValue(read<uint8_t>(stream) != 0);
   case BIN_KV_SERIALIZE_TYPE_STRING: return readStringJson(stream);
-  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream);
-  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type);
+  case BIN_KV_SERIALIZE_TYPE_OBJECT: return loadSection(stream, depth + 1);
+  case BIN_KV_SERIALIZE_TYPE_ARRAY:  return loadArray(stream, type, depth + 1);
   default:
     throw std::runtime_error("Unknown data type");
   }
 }
 
-JsonValue loadEntry(common::IInputStream& stream) {
+JsonValue loadEntry(common::IInputStream& stream, size_t depth) {
   uint8_t type = readPod<uint8_t>(stream);
 
   if (type & BIN_KV_SERIALIZE_FLAG_ARRAY) {
     type &= ~BIN_KV_SERIALIZE_FLAG_ARRAY;
-    return loadArray(stream, type);
+    return loadArray(stream, type, depth + 1);
   }
 
-  return loadValue(stream, type);
+  return loadValue(stream, type, depth);
 }
 
-JsonValue loadArray(common::IInputStream& stream, uint8_t itemType) {
+JsonValue loadArray(common::IInputStream& stream, uint8_t itemType, size_t depth) {
+  checkDepth(depth);
   JsonValue arr(JsonValue::ARRAY);
   size_t count = readVarint(stream);
 
   while (count--) {
-    arr.pushBack(loadValue(stream, itemType));
+    arr.pushBack(loadValue(stream, itemType, depth));
   }
 
   return arr;
@@ -170,7 +180,7 @@ JsonValue parseBinary(common::IInputStream& stream) {
     throw std::runtime_error("Unknown binary storage format version");
   }
 
-  return loadSection(stream);
+  return loadSection(stream, 0);
 }
 
 }
-- 
2.43.0


From 1e7db7294572ea02b1b01fcdab7335e0a00eeb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 14/39] fix: refuse JSON nested so deep that reading it
 exhausts the stack

---
 src/Common/JsonValue.cpp | 36 +++++++++++++++++++++++-------------
 src/Common/JsonValue.h   |  5 +++--
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index 8edc857..ae5260c 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -651,6 +651,8 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
 
 namespace {
 
+const size_t MAX_NESTING_DEPTH = 100;
+
 char readChar(std::istream& in) {
   char c = static_cast<char>(in.get());
   if (!in) {
@@ -696,27 +698,35 @@ std::string readStringToken(std::istream& in) {
 
 
 std::istream& operator>>(std::istream& in, JsonValue& jsonValue) {
+  jsonValue.readValue(in, 0);
+  return in;
+}
+
+void JsonValue::readValue(std::istream& in, size_t depth) {
+  // deeper nesting would exhaust the stack
+  if (depth > MAX_NESTING_DEPTH) {
+    throw std::runtime_error("Unable to parse: nested too deep");
+  }
+
   char c = readNonWsChar(in);
 
   if (c == '[') {
-    jsonValue.readArray(in);
+    readArray(in, depth);
   } else if (c == 't') {
-    jsonValue.readTrue(in);
+    readTrue(in);
   } else if (c == 'f') {
-    jsonValue.readFalse(in);
+    readFalse(in);
   } else if ((c == '-') || (c >= '0' && c <= '9')) {
-    jsonValue.readNumber(in, c);
+    readNumber(in, c);
   } else if (c == 'n') {
-    jsonValue.readNull(in);
+    readNull(in);
   } else if (c == '{') {
-    jsonValue.readObject(in);
+    readObject(in, depth);
   } else if (c == '"') {
-    jsonValue.readString(in);
+    readString(in);
   } else {
     throw std::runtime_error("Unable to parse");
   }
-
-  return in;
 }
 
 void JsonValue::destructValue() {
@@ -735,7 +745,7 @@ void JsonValue::destructValue() {
   }
 }
 
-void JsonValue::readArray(std::istream& in) {
+void JsonValue::readArray(std::istream& in, size_t depth) {
   JsonValue::Array value;
   char c = readNonWsChar(in);
 
@@ -743,7 +753,7 @@ void JsonValue::readArray(std::istream& in) {
     in.putback(c);
     for (;;) {
       value.resize(value.size() + 1);
-      in >> value.back();
+      value.back().readValue(in, depth + 1);
       c = readNonWsChar(in);
 
       if (c == ']') {
@@ -882,7 +892,7 @@ void JsonValue::readNumber(std::istream& in, char c) {
   }
 }
 
-void JsonValue::readObject(std::istream& in) {
+void JsonValue::readObject(std::istream& in, size_t depth) {
   char c = readNonWsChar(in);
   JsonValue::Object value;
 
@@ -901,7 +911,7 @@ void JsonValue::readObject(std::istream& in) {
         throw std::runtime_error("Unable to parse");
       }
 
-      in >> value[name];
+      value[name].readValue(in, depth + 1);
       c = readNonWsChar(in);
 
       if (c == '}') {
diff --git a/src/Common/JsonValue.h b/src/Common/JsonValue.h
index 48b8ec8..deff46b 100644
--- a/src/Common/JsonValue.h
+++ b/src/Common/JsonValue.h
@@ -141,12 +141,13 @@ private:
 
   void destructValue();
 
-  void readArray(std::istream& in);
+  void readValue(std::istream& in, size_t depth);
+  void readArray(std::istream& in, size_t depth);
   void readTrue(std::istream& in);
   void readFalse(std::istream& in);
   void readNull(std::istream& in);
   void readNumber(std::istream& in, char c);
-  void readObject(std::istream& in);
+  void readObject(std::istream& in, size_t depth);
   void readString(std::istream& in);
 };
 
-- 
2.43.0


From b148d179c5bc56c4513c7edcaa5c3ae966e96a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 15/39] fix: escape quotes, backslashes and control characters
 in JSON strings and read them back

---
 src/Common/JsonValue.cpp | 106 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 102 insertions(+), 4 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index ae5260c..0417297 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -590,6 +590,35 @@ std::string JsonValue::toString() const {
   return stream.str();
 }
 
+namespace {
+
+void writeString(std::ostream& out, const std::string& value) {
+  static const char hexDigits[] = "0123456789abcdef";
+
+  out << '"';
+  for (char c : value) {
+    switch (c) {
+    case '"': out << "\\\""; break;
+    case '\\': out << "\\\\"; break;
+    case '\b': out << "\\b"; break;
+    case '\f': out << "\\f"; break;
+    case '\n': out << "\\n"; break;
+    case '\r': out << "\\r"; break;
+    case '\t': out << "\\t"; break;
+    default:
+      if (static_cast<unsigned char>(c) < 0x20) {
+        out << "\\u00" << hexDigits[c >> 4] << hexDigits[c & 15];
+      } else {
+        out << c;
+      }
+    }
+  }
+
+  out << '"';
+}
+
+}
+
 std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
   switch (jsonValue.type) {
   case JsonValue::ARRAY: {
@@ -619,10 +648,13 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
     out << '{';
     auto iter = object.begin();
     if (iter != object.end()) {
-      out << '"' << iter->first << "\":" << iter->second;
+      writeString(out, iter->first);
+      out << ':' << iter->second;
       ++iter;
       for (; iter != object.end(); ++iter) {
-        out << ",\"" << iter->first << "\":" << iter->second;
+        out << ',';
+        writeString(out, iter->first);
+        out << ':' << iter->second;
       }
     }
 
@@ -641,7 +673,7 @@ std::ostream& operator<<(std::ostream& out, const JsonValue& jsonValue) {
     break;
   }
   case JsonValue::STRING:
-    out << '"' << *reinterpret_cast<const JsonValue::String*>(jsonValue.valueString) << '"';
+    writeString(out, *reinterpret_cast<const JsonValue::String*>(jsonValue.valueString));
     break;
   }
 
@@ -672,6 +704,60 @@ char readNonWsChar(std::istream& in) {
   return c;
 }
 
+uint32_t readCodeUnit(std::istream& in) {
+  uint32_t unit = 0;
+  for (size_t i = 0; i < 4; ++i) {
+    char c = readChar(in);
+    unit <<= 4;
+    if (c >= '0' && c <= '9') {
+      unit |= c - '0';
+    } else if (c >= 'a' && c <= 'f') {
+      unit |= c - 'a' + 10;
+    } else if (c >= 'A' && c <= 'F') {
+      unit |= c - 'A' + 10;
+    } else {
+      throw std::runtime_error("Unable to parse");
+    }
+  }
+
+  return unit;
+}
+
+// the part of \uXXXX (or of a pair of them) after the first \u
+void readCodePoint(std::istream& in, std::string& value) {
+  uint32_t code = readCodeUnit(in);
+  if (code >= 0xd800 && code < 0xdc00) {
+    if (readChar(in) != '\\' || readChar(in) != 'u') {
+      throw std::runtime_error("Unable to parse");
+    }
+
+    uint32_t low = readCodeUnit(in);
+    if (low < 0xdc00 || low >= 0xe000) {
+      throw std::runtime_error("Unable to parse");
+    }
+
+    code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+  } else if (code >= 0xdc00 && code < 0xe000) {
+    throw std::runtime_error("Unable to parse");
+  }
+
+  if (code < 0x80) {
+    value += static_cast<char>(code);
+  } else if (code < 0x800) {
+    value += static_cast<char>(0xc0 | (code >> 6));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  } else if (code < 0x10000) {
+    value += static_cast<char>(0xe0 | (code >> 12));
+    value += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  } else {
+    value += static_cast<char>(0xf0 | (code >> 18));
+    value += static_cast<char>(0x80 | ((code >> 12) & 0x3f));
+    value += static_cast<char>(0x80 | ((code >> 6) & 0x3f));
+    value += static_cast<char>(0x80 | (code & 0x3f));
+  }
+}
+
 std::string readStringToken(std::istream& in) {
   char c;
   std::string value;
@@ -684,8 +770,20 @@ std::string readStringToken(std::istream& in) {
     }
 
     if (c == '\\') {
-      value += c;
       c = readChar(in);
+      switch (c) {
+      case '"': case '\\': case '/': break;
+      case 'b': c = '\b'; break;
+      case 'f': c = '\f'; break;
+      case 'n': c = '\n'; break;
+      case 'r': c = '\r'; break;
+      case 't': c = '\t'; break;
+      case 'u':
+        readCodePoint(in, value);
+        continue;
+      default:
+        throw std::runtime_error("Unable to parse");
+      }
     }
 
     value += c;
-- 
2.43.0


From e81d160214b6c56688e7f8dd64c36396ce80fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 16/39] fix: refuse JSON numbers that do not fit instead of
 reading them as another number

---
 src/Common/JsonValue.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Common/JsonValue.cpp b/src/Common/JsonValue.cpp
index 0417297..c4aa9e9 100644
--- a/src/Common/JsonValue.cpp
+++ b/src/Common/JsonValue.cpp
@@ -967,7 +967,10 @@ void JsonValue::readNumber(std::istream& in, char c) {
     }
 
     Real value;
-    std::istringstream(text) >> value;
+    if (!(std::istringstream(text) >> value)) {
+      throw std::runtime_error("Unable to parse");
+    }
+
     if (type != REAL) {
       destructValue();
       type = REAL;
@@ -980,7 +983,10 @@ void JsonValue::readNumber(std::istream& in, char c) {
     }
 
     Integer value;
-    std::istringstream(text) >> value;
+    if (!(std::istringstream(text) >> value)) {
+      throw std::runtime_error("Unable to parse");
+    }
+
     if (type != INTEGER) {
       destructValue();
       type = INTEGER;
-- 
2.43.0


From 1c15d6e16cf62d9bdc0afcdc1ebac04fa0b8beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 17/39] fix: HTTP messages without headers, or with ": " inside
 a header value, were misread

---
 src/HTTP/HttpParser.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/HTTP/HttpParser.cpp b/src/HTTP/HttpParser.cpp
index 50c7fe0..82c6c08 100644
--- a/src/HTTP/HttpParser.cpp
+++ b/src/HTTP/HttpParser.cpp
@@ -102,7 +102,10 @@ void HttpParser::receiveResponse(std::istream& stream, HttpResponse& response) {
     value.clear();
   }
 
-  response.addHeader(name, value);
+  if (!name.empty()) {
+    response.addHeader(name, value);
+  }
+
   auto headers = response.getHeaders();
   size_t length = 0;
   auto it = headers.find("content-length");
@@ -148,7 +151,9 @@ void HttpParser::readHeaders(std::istream& stream, HttpRequest::Headers& headers
     value.clear();
   }
 
-  headers[name] = value; //use insert
+  if (!name.empty()) {
+    headers[name] = value; //use insert
+  }
 }
 
 bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string& value) {
@@ -156,21 +161,29 @@ bool HttpParser::readHeader(std::istream& stream, std::string& name, std::string
   bool isName = true;
 
   stream.get(c);
-  while (stream.good() && c != '\r') {
-    if (c == ':') {
-      if (stream.peek() == ' ') {
-        stream.get(c);
-      }
+  if (stream.good() && c == '\r') {
+    stream.get(c);
+    throwIfNotGood(stream);
+    if (c != '\n') {
+      throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::UNEXPECTED_SYMBOL));
+    }
+
+    return false; //no headers at all
+  }
 
+  while (stream.good() && c != '\r') {
+    if (isName && c == ':') {
       if (name.empty()) {
         throw std::system_error(make_error_code(cn::error::HttpParserErrorCodes::EMPTY_HEADER));
       }
 
-      if (isName) {
-        isName = false;
+      isName = false;
+      stream.get(c);
+      if (stream.good() && c == ' ') {
         stream.get(c);
-        continue;
       }
+
+      continue;
     }
 
     if (isName) {
-- 
2.43.0


From a4bc94cda7dd156580782d4df6c2c0e39b353b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:23 +0000
Subject: [PATCH 18/39] fix: refuse a key or hash that is too short in JSON
 instead of leaving part of it unset

---
 src/Serialization/JsonInputValueSerializer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index 5f552bd..dc59317 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -144,7 +144,10 @@ bool JsonInputValueSerializer::binary(void* value, size_t size, common::StringVi
     return false;
   }
 
-  common::fromHex(ptr->getString(), value, size);
+  if (common::fromHex(ptr->getString(), value, size) != size) {
+    throw std::runtime_error("Binary block size mismatch");
+  }
+
   return true;
 }
 
-- 
2.43.0


From b427b1c86bc9c5a13a61318e8e95909ca0370f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:02 +0000
Subject: [PATCH 19/39] fix: get_pool_changes.bin lost the added transactions
 on their way to the client

---
 src/Rpc/CoreRpcServerCommandsDefinitions.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Rpc/CoreRpcServerCommandsDefinitions.h b/src/Rpc/CoreRpcServerCommandsDefinitions.h
index cf3778b..03f9358 100644
--- a/src/Rpc/CoreRpcServerCommandsDefinitions.h
+++ b/src/Rpc/CoreRpcServerCommandsDefinitions.h
@@ -132,7 +132,23 @@ struct COMMAND_RPC_GET_POOL_CHANGES {
 
     void serialize(ISerializer &s) {
       KV_MEMBER(isTailBlockActual)
-      KV_MEMBER(addedTxs)
+
+      // arrays cannot be nested directly, the blobs travel as strings
+      std::vector<std::string> blobs;
+      if (s.type() == ISerializer::OUTPUT) {
+        for (const BinaryArray &tx : addedTxs) {
+          blobs.push_back(std::string(tx.begin(), tx.end()));
+        }
+      }
+
+      s(blobs, "addedTxs");
+      if (s.type() == ISerializer::INPUT) {
+        addedTxs.clear();
+        for (const std::string &blob : blobs) {
+          addedTxs.push_back(BinaryArray(blob.begin(), blob.end()));
+        }
+      }
+
       serializeAsBinary(deletedTxsIds, "deletedTxsIds", s);
       KV_MEMBER(status)
     }
-- 
2.43.0


From 7f5e9589f7fc39921958a4661872f01e940dd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 20/39] fix: fractional numbers could be written to a JSON or
 binary message but not read back

---
 src/Serialization/JsonInputValueSerializer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index dc59317..15addef 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -113,7 +113,13 @@ bool JsonInputValueSerializer::operator()(uint64_t& value, common::StringView na
 }
 
 bool JsonInputValueSerializer::operator()(double& value, common::StringView name) {
-  return getNumber(name, value);
+  auto ptr = getValue(name);
+  if (ptr == nullptr) {
+    return false;
+  }
+
+  value = ptr->isInteger() ? static_cast<double>(ptr->getInteger()) : ptr->getReal();
+  return true;
 }
 
 bool JsonInputValueSerializer::operator()(uint8_t& value, common::StringView name) {
-- 
2.43.0


From df0a7e4703fd20b1f960201610c7de31bdbaf15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 21/39] fix: refuse numbers that do not fit the field of a
 message instead of cutting them off

---
 src/Serialization/JsonInputValueSerializer.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Serialization/JsonInputValueSerializer.h b/src/Serialization/JsonInputValueSerializer.h
index 916574b..0002111 100644
--- a/src/Serialization/JsonInputValueSerializer.h
+++ b/src/Serialization/JsonInputValueSerializer.h
@@ -7,6 +7,8 @@
 
 #pragma once
 
+#include <stdexcept>
+
 #include "Common/JsonValue.h"
 #include "ISerializer.h"
 
@@ -60,7 +62,12 @@ private:
       return false;
     }
 
-    v = static_cast<T>(ptr->getInteger());
+    const int64_t number = ptr->getInteger();
+    v = static_cast<T>(number);
+    if (static_cast<int64_t>(v) != number) {
+      throw std::runtime_error("Number is out of range");
+    }
+
     return true;
   }
 };
-- 
2.43.0


From b8a9ab44365418c8dc156b058a568f95120a573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 22/39] fix: a message with an array where an object belongs
 crashed the reader

---
 src/Serialization/JsonInputValueSerializer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Serialization/JsonInputValueSerializer.cpp b/src/Serialization/JsonInputValueSerializer.cpp
index 15addef..12f281a 100644
--- a/src/Serialization/JsonInputValueSerializer.cpp
+++ b/src/Serialization/JsonInputValueSerializer.cpp
@@ -46,12 +46,20 @@ bool JsonInputValueSerializer::beginObject(common::StringView name) {
 
   if (parent->isArray()) {
     const JsonValue& v = (*parent)[idxs.back()++];
+    if (!v.isObject()) {
+      throw serializer_error("Object expected.");
+    }
+
     chain.push_back(&v);
     return true;
   }
 
   if (parent->contains(std::string(name))) {
     const JsonValue& v = (*parent)(std::string(name));
+    if (!v.isObject()) {
+      throw serializer_error("Object expected.");
+    }
+
     chain.push_back(&v);
     return true;
   }
-- 
2.43.0


From ac17bb0e160b2d692e414be42631153b57e854a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 23/39] fix: the wallet kept only one deposit of a transaction
 that makes several

---
 src/Wallet/WalletGreen.cpp | 6 +++---
 src/Wallet/WalletGreen.h   | 2 +-
 src/Wallet/WalletIndices.h | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 0ee8379..d1f7d56 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3859,7 +3859,7 @@ namespace cn
       /* Now check for any deposit withdrawals in the transactions */
       for (const auto& depositOutput: spentDepositOutputs)
       {
-        auto depositId = getDepositId(depositOutput.transactionHash);
+        auto depositId = getDepositId(depositOutput.transactionHash, depositOutput.outputInTransaction);
         assert(depositId != WALLET_INVALID_DEPOSIT_ID);
         if (depositId == WALLET_INVALID_DEPOSIT_ID)
         {
@@ -3935,9 +3935,9 @@ namespace cn
     return txId;
   }
 
-  size_t WalletGreen::getDepositId(const Hash &transactionHash) const
+  size_t WalletGreen::getDepositId(const Hash &transactionHash, uint32_t outputInTransaction) const
   {
-    auto it = m_deposits.get<TransactionIndex>().find(transactionHash);
+    auto it = m_deposits.get<TransactionIndex>().find(boost::make_tuple(transactionHash, outputInTransaction));
 
     if (it == m_deposits.get<TransactionIndex>().end())
     {
diff --git a/src/Wallet/WalletGreen.h b/src/Wallet/WalletGreen.h
index ff377ea..31da30b 100644
--- a/src/Wallet/WalletGreen.h
+++ b/src/Wallet/WalletGreen.h
@@ -256,7 +256,7 @@ protected:
   std::string addWallet(const crypto::PublicKey &spendPublicKey, const crypto::SecretKey &spendSecretKey, uint64_t creationTimestamp);
   AccountKeys makeAccountKeys(const WalletRecord &wallet) const;
   size_t getTransactionId(const crypto::Hash &transactionHash) const;
-  size_t getDepositId(const crypto::Hash &transactionHash) const;
+  size_t getDepositId(const crypto::Hash &transactionHash, uint32_t outputInTransaction) const;
   void pushEvent(const WalletEvent &event);
   bool isFusionTransaction(const WalletTransaction &walletTx) const;
 
diff --git a/src/Wallet/WalletIndices.h b/src/Wallet/WalletIndices.h
index 789eec7..e70a59b 100644
--- a/src/Wallet/WalletIndices.h
+++ b/src/Wallet/WalletIndices.h
@@ -110,7 +110,9 @@ struct EncryptedWalletRecord {
         boost::multi_index::indexed_by<
             boost::multi_index::random_access<boost::multi_index::tag<RandomAccessIndex>>,
             boost::multi_index::hashed_unique<boost::multi_index::tag<TransactionIndex>,
-                                              boost::multi_index::member<cn::Deposit, crypto::Hash, &cn::Deposit::transactionHash>>,
+                                              boost::multi_index::composite_key<cn::Deposit,
+                                                                                boost::multi_index::member<cn::Deposit, crypto::Hash, &cn::Deposit::transactionHash>,
+                                                                                boost::multi_index::member<cn::Deposit, uint32_t, &cn::Deposit::outputInTransaction>>>,
             boost::multi_index::ordered_non_unique<boost::multi_index::tag<BlockHeightIndex>,
                                                    boost::multi_index::member<cn::Deposit, uint64_t, &cn::Deposit::height>>>>
          WalletDeposits;
-- 
2.43.0


From d819fb4e7d5629e294c88ef400620376fbf80403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 24/39] fix: a deposit that came back at another height after a
 reorganization kept its old term

---
 src/Wallet/WalletGreen.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index d1f7d56..365a73b 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3578,7 +3578,21 @@ namespace cn
     deposit.unlockHeight = height + depositOutput.term;
     deposit.locked = true;
 
-    DepositId id = insertDeposit(deposit, depositOutput.outputInTransaction, depositOutput.transactionHash);
+    DepositId id = getDepositId(depositOutput.transactionHash, depositOutput.outputInTransaction);
+    if (id == WALLET_INVALID_DEPOSIT_ID)
+    {
+      id = insertDeposit(deposit, depositOutput.outputInTransaction, depositOutput.transactionHash);
+    }
+    else
+    {
+      /* The transaction is back in the chain after a reorganization, possibly at another height */
+      auto &depositIndex = m_deposits.get<RandomAccessIndex>();
+      depositIndex.modify(std::next(depositIndex.begin(), id), [&deposit](Deposit &known) {
+        known.height = deposit.height;
+        known.unlockHeight = deposit.unlockHeight;
+        known.interest = deposit.interest;
+      });
+    }
 
     /* Ordinary unlock jobs only cover the transaction's own unlockTime/soft-lock;
        schedule one for deposit-term maturity too so unlockBalances() refreshes
-- 
2.43.0


From 943be7adaff07a72c2d7dc19ac190cdbb5d89538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 25/39] fix: a deposit could not be withdrawn again after its
 withdrawal vanished

---
 src/Wallet/WalletGreen.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 365a73b..74f2a7f 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3988,6 +3988,16 @@ namespace cn
     updateBalance(container);
     deleteUnlockTransactionJob(transactionHash);
 
+    /* Deposits this transaction was to withdraw are there to be withdrawn again */
+    auto &depositIndex = m_deposits.get<RandomAccessIndex>();
+    for (auto deposit = depositIndex.begin(); deposit != depositIndex.end(); ++deposit)
+    {
+      if (deposit->spendingTransactionId == getTransactionId(transactionHash))
+      {
+        depositIndex.modify(deposit, [](Deposit &d) { d.spendingTransactionId = WALLET_INVALID_TRANSACTION_ID; });
+      }
+    }
+
     bool updated = false;
     m_transactions.get<TransactionIndex>().modify(it, [&updated](cn::WalletTransaction &tx) {
       if (tx.state == WalletTransactionState::CREATED || tx.state == WalletTransactionState::SUCCEEDED)
-- 
2.43.0


From 1d6e3e646c92bb51b30d9e241bcdfb51213a3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 26/39] fix: withdraw a deposit with the keys of the address
 that owns it

---
 src/Transfers/TransfersContainer.cpp |  2 +-
 src/Wallet/WalletGreen.cpp           | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 635d499..5ee3cc9 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -845,7 +845,7 @@ bool TransfersContainer::getTransfer(const crypto::Hash& transactionHash, uint32
 
   auto spentIt = spentIndex.find(transferId);
   if (spentIt != spentIndex.end()) {
-    transfer = *unconfirmedIt;
+    transfer = *spentIt;
     transferState = TransferState::TransferSpent;
     return true;
   }
diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 74f2a7f..7e743a2 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -308,8 +308,6 @@ namespace cn
 
     /* Get the details of the deposit, and the address */
     Deposit deposit = getDeposit(depositId);
-    WalletTransfer firstTransfer = getTransactionTransfer(deposit.creatingTransactionId, 0);
-    std::string address = firstTransfer.address;
 
     uint64_t blockCount = getBlockCount();
 
@@ -324,9 +322,6 @@ namespace cn
 
     std::vector<TransactionOutputInformation> selectedTransfers;
 
-    const auto &wallet = getWalletRecord(address);
-    const ITransfersContainer *container = wallet.container;
-    AccountKeys account = makeAccountKeys(wallet);
     ITransfersContainer::TransferState state;
     TransactionOutputInformation transfer;
 
@@ -334,13 +329,18 @@ namespace cn
     foundMoney += deposit.amount + deposit.interest;
     m_logger(DEBUGGING, WHITE) << "found money " << foundMoney;
 
-    container->getTransfer(deposit.transactionHash, deposit.outputInTransaction, transfer, state);
+    /* The deposit belongs to the address whose container holds its output */
+    auto &wallets = m_walletsContainer.get<RandomAccessIndex>();
+    auto owner = std::find_if(wallets.begin(), wallets.end(), [&](const WalletRecord &record) {
+      return record.container->getTransfer(deposit.transactionHash, deposit.outputInTransaction, transfer, state);
+    });
 
-    if (state != ITransfersContainer::TransferState::TransferAvailable) 
+    if (owner == wallets.end() || state != ITransfersContainer::TransferState::TransferAvailable)
     {
       throw std::system_error(make_error_code(cn::error::DEPOSIT_LOCKED));
     }
 
+    AccountKeys account = makeAccountKeys(*owner);
     selectedTransfers.push_back(std::move(transfer));
     m_logger(DEBUGGING, BRIGHT_WHITE) << "Withdraw deposit, id " << depositId << " found transfer for " << transfer.amount << " with a global output index of " << transfer.globalOutputIndex;
 
-- 
2.43.0


From d83ed2d5f139b1e36ec29c48f9f2e5831e0d3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 27/39] fix: deleting an address left its deposits in the
 totals of the wallet

---
 src/Wallet/WalletGreen.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 7e743a2..9ee820a 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1796,6 +1796,8 @@ namespace cn
 
     m_actualBalance -= it->actualBalance;
     m_pendingBalance -= it->pendingBalance;
+    m_lockedDepositBalance -= it->lockedDepositBalance;
+    m_unlockedDepositBalance -= it->unlockedDepositBalance;
 
     m_synchronizer.removeSubscription(pubAddr);
 
-- 
2.43.0


From 5e1fd62b65310c24d9a2f1547e91821bd48a0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 28/39] fix: a payment made again after its first transaction
 vanished was taken for a duplicate

---
 src/Transfers/TransfersConsumer.cpp     | 59 ++++++++++++++-----------
 src/Transfers/TransfersConsumer.h       |  1 +
 src/Transfers/TransfersSubscription.cpp |  3 ++
 3 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 12854a1..9e6c6fe 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -26,8 +26,8 @@ using namespace crypto;
 using namespace logging;
 using namespace common;
 
-std::unordered_set<crypto::Hash> transactions_hash_seen;
-std::unordered_set<crypto::PublicKey> public_keys_seen;
+// Output keys known to the wallet, and the transaction each of them belongs to
+std::unordered_map<crypto::PublicKey, crypto::Hash> public_keys_seen;
 std::mutex seen_mutex;
 
 namespace {
@@ -361,9 +361,21 @@ void TransfersConsumer::removeUnconfirmedTransaction(const crypto::Hash& transac
 
 void TransfersConsumer::addPublicKeysSeen(const crypto::Hash& transactionHash, const crypto::PublicKey& outputKey) {
     std::lock_guard<std::mutex> lk(seen_mutex);
-    transactions_hash_seen.insert(transactionHash);
-    public_keys_seen.insert(outputKey);
-}	
+    public_keys_seen.emplace(outputKey, transactionHash);
+}
+
+// A transaction that is gone does not make another one that pays to the same keys a duplicate: keys are derived
+// from the inputs, so a payment that is made again after its first transaction expired has the same ones.
+void TransfersConsumer::forgetPublicKeysSeen(const crypto::Hash& transactionHash) {
+    std::lock_guard<std::mutex> lk(seen_mutex);
+    for (auto it = public_keys_seen.begin(); it != public_keys_seen.end();) {
+      if (it->second == transactionHash) {
+        it = public_keys_seen.erase(it);
+      } else {
+        ++it;
+      }
+    }
+}
 	
 std::error_code createTransfers(
   const AccountKeys& account,
@@ -426,16 +438,12 @@ std::error_code createTransfers(
 
       assert(out.key == reinterpret_cast<const PublicKey&>(in_ephemeral.publicKey));
 
-      std::unordered_set<crypto::Hash>::iterator it = transactions_hash_seen.find(tx.getTransactionHash());
-	  if (it == transactions_hash_seen.end()) {
-        std::unordered_set<crypto::PublicKey>::iterator key_it = public_keys_seen.find(out.key);
-        if (key_it != public_keys_seen.end()) {
-          throw std::runtime_error("duplicate transaction output key is found");
-          return std::error_code();
-        }
-        temp_keys.push_back(out.key);		
-	  }   
-	     
+      auto key_it = public_keys_seen.find(out.key);
+      if (key_it == public_keys_seen.end()) {
+        temp_keys.push_back(out.key);
+      } else if (key_it->second != txHash) {
+        throw std::runtime_error("duplicate transaction output key is found");
+      }
 
       info.amount = amount;
       info.outputKey = out.key;
@@ -446,18 +454,16 @@ std::error_code createTransfers(
       tx.getOutput(idx, out, amount);
 	    
 		  for (const auto& key : out.keys) {
-        std::unordered_set<crypto::Hash>::iterator it = transactions_hash_seen.find(txHash);
-        if (it == transactions_hash_seen.end()) {
-          std::unordered_set<crypto::PublicKey>::iterator key_it = public_keys_seen.find(key);
-          if (key_it != public_keys_seen.end()) {
-			 // m_logger(ERROR, BRIGHT_RED) << "Failed to process transaction " << common::podToHex(txHash) << ": duplicate multisignature output key is found";
-            return std::error_code();
-          }
+        auto key_it = public_keys_seen.find(key);
+        if (key_it == public_keys_seen.end()) {
           if (std::find(temp_keys.begin(), temp_keys.end(), key) != temp_keys.end()) {
-          //  m_logger(ERROR, BRIGHT_RED) << "Failed to process transaction " << common::podToHex(txHash) << ": the same multisignature output key is present more than once";
+            // the same multisignature output key is present more than once
             return std::error_code();
           }
           temp_keys.push_back(key);
+        } else if (key_it->second != txHash) {
+          // duplicate multisignature output key is found
+          return std::error_code();
         }
       }
       info.amount = amount;
@@ -468,10 +474,9 @@ std::error_code createTransfers(
    transfers.push_back(info);
   }
 
-  transactions_hash_seen.emplace(tx.getTransactionHash());
-  std::copy(temp_keys.begin(), temp_keys.end(), std::inserter(public_keys_seen, public_keys_seen.end()));
-
-
+  for (const auto& key : temp_keys) {
+    public_keys_seen.emplace(key, txHash);
+  }
  
   return std::error_code();
 }
diff --git a/src/Transfers/TransfersConsumer.h b/src/Transfers/TransfersConsumer.h
index 0929abc..a043df8 100644
--- a/src/Transfers/TransfersConsumer.h
+++ b/src/Transfers/TransfersConsumer.h
@@ -36,6 +36,7 @@ public:
 
   void initTransactionPool(const std::unordered_set<crypto::Hash>& uncommitedTransactions);
   void addPublicKeysSeen(const crypto::Hash& transactionHash, const crypto::PublicKey& outputKey);
+  static void forgetPublicKeysSeen(const crypto::Hash& transactionHash);
   
   // IBlockchainConsumer
   virtual SynchronizationStart getSyncStart() override;
diff --git a/src/Transfers/TransfersSubscription.cpp b/src/Transfers/TransfersSubscription.cpp
index fc1ca70..01eb6e4 100644
--- a/src/Transfers/TransfersSubscription.cpp
+++ b/src/Transfers/TransfersSubscription.cpp
@@ -6,6 +6,7 @@
 // file COPYING or http://www.opensource.org/licenses/mit-license.php.
 
 #include "TransfersSubscription.h"
+#include "TransfersConsumer.h"
 #include "IWalletLegacy.h"
 
 using namespace crypto;
@@ -26,6 +27,7 @@ void TransfersSubscription::onBlockchainDetach(uint32_t height) {
   transfers.detach(height, deletedTransactions, lockedTransfers);
 
   for (auto& hash : deletedTransactions) {
+    TransfersConsumer::forgetPublicKeysSeen(hash);
     m_observerManager.notify(&ITransfersObserver::onTransactionDeleted, this, hash);
   }
 
@@ -82,6 +84,7 @@ ITransfersContainer& TransfersSubscription::getContainer() {
 
 void TransfersSubscription::deleteUnconfirmedTransaction(const Hash& transactionHash) {
   if (transfers.deleteUnconfirmedTransaction(transactionHash)) {
+    TransfersConsumer::forgetPublicKeysSeen(transactionHash);
     m_observerManager.notify(&ITransfersObserver::onTransactionDeleted, this, transactionHash);
   }
 }
-- 
2.43.0


From 64494fa8d69467ea90fc7da1a5c84bf6a52b42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 29/39] fix: balances of the wallet went stale when outputs
 matured or blocks were detached

---
 src/Wallet/WalletGreen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 9ee820a..a8701dc 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3417,6 +3417,14 @@ namespace cn
       return;
     }
 
+    /* An output can change between locked and unlocked without a transaction of its own being
+       processed in this round (blocks were detached, an unlock time or a deposit term has passed),
+       so bring the cached balances in line with the chain the round ended on. */
+    for (const auto &wallet : m_walletsContainer.get<RandomAccessIndex>())
+    {
+      updateBalance(wallet.container);
+    }
+
     pushEvent(makeSyncCompletedEvent());
   }
 
-- 
2.43.0


From bbf94f7d1cf8490c5dc766586af33007d946db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 30/39] fix: a spend made by another wallet with the same keys
 stopped the synchronization

---
 src/Transfers/TransfersConsumer.cpp     | 26 ++++++++++++++++++++
 src/Transfers/TransfersConsumer.h       |  1 +
 src/Transfers/TransfersContainer.cpp    | 32 +++++++++++++++++++++++++
 src/Transfers/TransfersContainer.h      |  2 ++
 src/Transfers/TransfersSubscription.cpp |  4 ++++
 src/Transfers/TransfersSubscription.h   |  1 +
 6 files changed, 66 insertions(+)

diff --git a/src/Transfers/TransfersConsumer.cpp b/src/Transfers/TransfersConsumer.cpp
index 9e6c6fe..6a6c0e3 100644
--- a/src/Transfers/TransfersConsumer.cpp
+++ b/src/Transfers/TransfersConsumer.cpp
@@ -535,7 +535,33 @@ std::error_code TransfersConsumer::processTransaction(const TransactionBlockInfo
   return std::error_code();
 }
 
+// A transaction in the pool that spends an output which is already spent (another wallet with the same keys
+// can do that) is not taken into account; one that is included in a block displaces the unconfirmed ones.
+bool TransfersConsumer::resolveConflicts(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx) {
+  std::unordered_set<crypto::Hash> conflicts;
+  for (const auto& kv : m_subscriptions) {
+    if (blockInfo.height == WALLET_UNCONFIRMED_TRANSACTION_HEIGHT) {
+      if (!kv.second->getConflictingTransactions(tx, true).empty() || !kv.second->getConflictingTransactions(tx, false).empty()) {
+        return false;
+      }
+    } else {
+      const auto subscriptionConflicts = kv.second->getConflictingTransactions(tx, true);
+      conflicts.insert(subscriptionConflicts.begin(), subscriptionConflicts.end());
+    }
+  }
+
+  for (const auto& transactionHash : conflicts) {
+    removeUnconfirmedTransaction(transactionHash);
+  }
+
+  return true;
+}
+
 void TransfersConsumer::processTransaction(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx, const PreprocessInfo& info) {
+  if (!resolveConflicts(blockInfo, tx)) {
+    return;
+  }
+
   std::vector<TransactionOutputInformationIn> emptyOutputs;
   std::vector<ITransfersContainer*> transactionContainers;
   bool someContainerUpdated = false;
diff --git a/src/Transfers/TransfersConsumer.h b/src/Transfers/TransfersConsumer.h
index a043df8..cf0684f 100644
--- a/src/Transfers/TransfersConsumer.h
+++ b/src/Transfers/TransfersConsumer.h
@@ -65,6 +65,7 @@ private:
   std::error_code preprocessOutputs(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx, PreprocessInfo& info);
   std::error_code processTransaction(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx);
   void processTransaction(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx, const PreprocessInfo& info);
+  bool resolveConflicts(const TransactionBlockInfo& blockInfo, const ITransactionReader& tx);
   void processOutputs(const TransactionBlockInfo& blockInfo, TransfersSubscription& sub, const ITransactionReader& tx,
     const std::vector<TransactionOutputInformationIn>& outputs, const std::vector<uint32_t>& globalIdxs, bool& contains, bool& updated);
 
diff --git a/src/Transfers/TransfersContainer.cpp b/src/Transfers/TransfersContainer.cpp
index 5ee3cc9..bc91f76 100644
--- a/src/Transfers/TransfersContainer.cpp
+++ b/src/Transfers/TransfersContainer.cpp
@@ -376,6 +376,38 @@ bool TransfersContainer::addTransactionInputs(const TransactionBlockInfo& block,
   return inputsAdded;
 }
 
+std::vector<crypto::Hash> TransfersContainer::getConflictingTransactions(const ITransactionReader& tx, bool unconfirmed) const {
+  std::lock_guard<std::mutex> lock(m_mutex);
+
+  std::vector<crypto::Hash> conflicts;
+  const crypto::Hash transactionHash = tx.getTransactionHash();
+  const auto& spentIndex = m_spentTransfers.get<SpentOutputDescriptorIndex>();
+  for (size_t i = 0; i < tx.getInputCount(); ++i) {
+    SpentOutputDescriptor descriptor;
+    KeyInput keyInput;
+    if (tx.getInputType(i) == transaction_types::InputType::Key) {
+      tx.getInput(i, keyInput);
+      descriptor.assign(&keyInput.keyImage);
+    } else if (tx.getInputType(i) == transaction_types::InputType::Multisignature) {
+      MultisignatureInput input;
+      tx.getInput(i, input);
+      descriptor.assign(input.amount, input.outputIndex);
+    } else {
+      continue;
+    }
+
+    auto range = spentIndex.equal_range(descriptor);
+    for (auto it = range.first; it != range.second; ++it) {
+      bool spentByUnconfirmed = it->spendingBlock.height == WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT;
+      if (spentByUnconfirmed == unconfirmed && it->spendingTransactionHash != transactionHash) {
+        conflicts.push_back(it->spendingTransactionHash);
+      }
+    }
+  }
+
+  return conflicts;
+}
+
 bool TransfersContainer::deleteUnconfirmedTransaction(const crypto::Hash& transactionHash) {
   std::unique_lock<std::mutex> lock(m_mutex);
 
diff --git a/src/Transfers/TransfersContainer.h b/src/Transfers/TransfersContainer.h
index ec9765b..47516b3 100644
--- a/src/Transfers/TransfersContainer.h
+++ b/src/Transfers/TransfersContainer.h
@@ -192,6 +192,8 @@ public:
                       const std::vector<TransactionOutputInformationIn>& transfers,
                       std::vector<std::string>&& messages, std::vector<TransactionOutputInformation>* unlockingTransfers = nullptr);
   bool deleteUnconfirmedTransaction(const crypto::Hash& transactionHash);
+  // unconfirmed == true: known unconfirmed transactions spending the same outputs as tx, false: known confirmed ones
+  std::vector<crypto::Hash> getConflictingTransactions(const ITransactionReader& tx, bool unconfirmed) const;
   bool markTransactionConfirmed(const TransactionBlockInfo& block, const crypto::Hash& transactionHash, const std::vector<uint32_t>& globalIndices);
 
   void detach(uint32_t height, std::vector<crypto::Hash>& deletedTransactions, std::vector<TransactionOutputInformation>& lockedTransfers);
diff --git a/src/Transfers/TransfersSubscription.cpp b/src/Transfers/TransfersSubscription.cpp
index 01eb6e4..3a40303 100644
--- a/src/Transfers/TransfersSubscription.cpp
+++ b/src/Transfers/TransfersSubscription.cpp
@@ -89,6 +89,10 @@ void TransfersSubscription::deleteUnconfirmedTransaction(const Hash& transaction
   }
 }
 
+std::vector<crypto::Hash> TransfersSubscription::getConflictingTransactions(const ITransactionReader& tx, bool unconfirmed) const {
+  return transfers.getConflictingTransactions(tx, unconfirmed);
+}
+
 void TransfersSubscription::markTransactionConfirmed(const TransactionBlockInfo& block, const Hash& transactionHash,
                                                      const std::vector<uint32_t>& globalIndices) {
   transfers.markTransactionConfirmed(block, transactionHash, globalIndices);
diff --git a/src/Transfers/TransfersSubscription.h b/src/Transfers/TransfersSubscription.h
index 3511791..78de995 100644
--- a/src/Transfers/TransfersSubscription.h
+++ b/src/Transfers/TransfersSubscription.h
@@ -26,6 +26,7 @@ public:
                       const std::vector<TransactionOutputInformationIn>& transfers, std::vector<std::string>&& messages);
 
   void deleteUnconfirmedTransaction(const crypto::Hash& transactionHash);
+  std::vector<crypto::Hash> getConflictingTransactions(const ITransactionReader& tx, bool unconfirmed) const;
   void markTransactionConfirmed(const TransactionBlockInfo& block, const crypto::Hash& transactionHash, const std::vector<uint32_t>& globalIndices);
 
   // ITransfersSubscription
-- 
2.43.0


From 7e0ad90c2653e8907b44bb3046ff849cfc5f129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 31/39] fix: a wallet killed between the two renames of a save
 could not be opened

---
 src/Wallet/WalletGreen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index a8701dc..9d72168 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1257,6 +1257,13 @@ namespace cn
     crypto::cn_context cnContext;
     generate_chacha8_key(cnContext, password, m_key);
 
+    /* An update interrupted between its two renames leaves the container under its backup name only */
+    if (!boost::filesystem::exists(path) && boost::filesystem::exists(path + ".bak"))
+    {
+      m_logger(WARNING, BRIGHT_YELLOW) << "Wallet file is missing, restore it from " << path << ".bak";
+      boost::filesystem::rename(path + ".bak", path);
+    }
+
     std::ifstream walletFileStream(path, std::ios_base::binary);
     int version = walletFileStream.peek();
     if (version == EOF)
-- 
2.43.0


From 7a08a286db3070efe2de5a8afd71f960b3f2ca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 32/39] fix: a rescan encrypted every key record with the same
 IV, in place

---
 src/Wallet/WalletGreen.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 9d72168..929d7ad 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -2519,30 +2519,36 @@ namespace cn
     /* Stop so things can't be added to the container as we're looping */
     stop();
 
-    /* Grab the wallet encrypted prefix */
-    auto *prefix = reinterpret_cast<ContainerStoragePrefix *>(m_containerStorage.prefix());
     m_logger(INFO, BRIGHT_WHITE) << "reset with height " << scanHeight;
     uint64_t newTimestamp = scanHeightToTimestamp((uint32_t)scanHeight);
 
     m_logger(INFO, BRIGHT_WHITE) << "new timestamp " << newTimestamp;
 
-    /* Reencrypt with the new creation timestamp so we rescan from here when we relaunch */
-    prefix->encryptedViewKeys = encryptKeyPair(m_viewPublicKey, m_viewSecretKey, newTimestamp);
+    /* Reencrypt with the new creation timestamp so we rescan from here when we relaunch. Every record gets an
+       IV of its own, and the container is replaced as a whole: half a key record is a lost key. */
+    m_containerStorage.atomicUpdate([this, newTimestamp](ContainerStorage &newStorage)
+                                    {
+    const auto *prefix = reinterpret_cast<const ContainerStoragePrefix *>(m_containerStorage.prefix());
+    auto *newPrefix = reinterpret_cast<ContainerStoragePrefix *>(newStorage.prefix());
+    newPrefix->version = prefix->version;
+    newPrefix->nextIv = prefix->nextIv;
+    newPrefix->encryptedViewKeys = encryptKeyPair(m_viewPublicKey, m_viewSecretKey, newTimestamp, m_key, newPrefix->nextIv);
+    incIv(newPrefix->nextIv);
 
-    /* As a reference so we can update it */
-    for (auto &encryptedSpendKeys : m_containerStorage)
+    newStorage.setAutoFlush(false);
+    for (const auto &encryptedSpendKeys : m_containerStorage)
     {
       crypto::PublicKey publicKey;
       crypto::SecretKey secretKey;
       uint64_t oldTimestamp;
 
-      /* Decrypt the key pair we're pointing to */
       decryptKeyPair(encryptedSpendKeys, publicKey, secretKey, oldTimestamp);
-
-      /* Re-encrypt with the new timestamp */
-      encryptedSpendKeys = encryptKeyPair(publicKey, secretKey, newTimestamp);
+      newStorage.push_back(encryptKeyPair(publicKey, secretKey, newTimestamp, m_key, newPrefix->nextIv));
+      incIv(newPrefix->nextIv);
     }
 
+    std::copy(m_containerStorage.suffix(), m_containerStorage.suffix() + m_containerStorage.suffixSize(), newStorage.suffix()); });
+
     /* Start again so we can save */
     start();
 
-- 
2.43.0


From dbd70e7e7bc9a34d0e72b7232b32daeedea31f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 33/39] fix: a rescan dropped the note saved with the wallet

---
 src/Wallet/WalletGreen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 929d7ad..a896f85 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -2553,7 +2553,7 @@ namespace cn
     start();
 
     /* Save just the keys + timestamp to file */
-    save(cn::WalletSaveLevel::SAVE_KEYS_ONLY);
+    save(cn::WalletSaveLevel::SAVE_KEYS_ONLY, m_extra);
 
     /* Stop and shutdown */
     stop();
-- 
2.43.0


From 9f1a74556d048cd38657eb2e3277b4c9fa4c9017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 34/39] fix: an address whose creation failed stayed in the
 wallet file

---
 src/Common/FileMappedVector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Common/FileMappedVector.h b/src/Common/FileMappedVector.h
index ca4d433..ef9ca80 100644
--- a/src/Common/FileMappedVector.h
+++ b/src/Common/FileMappedVector.h
@@ -650,7 +650,12 @@ void FileMappedVector<T>::push_back(const T& val) {
   flushElement(size());
 
   ++(*sizePtr());
-  flushSize();
+  try {
+    flushSize();
+  } catch (...) {
+    --(*sizePtr());
+    throw;
+  }
 }
 
 template<class T>
-- 
2.43.0


From c895456fbc9a236f56e2a522f4c771e1440b878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 35/39] fix: a failing flush of the wallet file ended the
 process

---
 src/Wallet/WalletGreen.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index a896f85..239b2eb 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -969,9 +969,9 @@ namespace cn
     dst.reserve(src.size());
 
     dst.setAutoFlush(false);
+    /* Runs in a destructor, so nothing may be thrown from here */
     tools::ScopeExit exitHandler([&dst] {
       dst.setAutoFlush(true);
-      dst.flush();
     });
 
     for (const auto &encryptedSpendKeys : src)
@@ -988,6 +988,8 @@ namespace cn
 
       dst.push_back(encryptKeyPair(publicKey, secretKey, creationTimestamp, dstKey, keyPairIv));
     }
+
+    dst.flush();
   }
 
   void WalletGreen::copyContainerStoragePrefix(ContainerStorage &src, const chacha8_key &srcKey, ContainerStorage &dst, const chacha8_key &dstKey)
@@ -1653,12 +1655,9 @@ namespace cn
           m_containerStorage.setAutoFlush(false);
         }
 
+        /* Runs in a destructor, so nothing may be thrown from here */
         tools::ScopeExit exitHandler([this] {
-          if (!m_containerStorage.getAutoFlush())
-          {
-            m_containerStorage.setAutoFlush(true);
-            m_containerStorage.flush();
-          }
+          m_containerStorage.setAutoFlush(true);
         });
 
         for (auto &addressData : addressDataList)
@@ -1670,6 +1669,11 @@ namespace cn
 
           minCreationTimestamp = std::min(minCreationTimestamp, addressData.creationTimestamp);
         }
+
+        if (!m_containerStorage.getAutoFlush())
+        {
+          m_containerStorage.flush();
+        }
       }
 
       m_containerStorage.setAutoFlush(true);
-- 
2.43.0


From 71598cf62dec57ede67cd7a7140c350fd9eb50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 36/39] fix: an address whose deletion failed was gone until
 the wallet was reopened

---
 src/Wallet/WalletGreen.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 239b2eb..205a3f5 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -1805,6 +1805,18 @@ namespace cn
 
     stopBlockchainSynchronizer();
 
+    /* The file first: when it cannot be written, the address is still there */
+    try
+    {
+      m_containerStorage.erase(std::next(m_containerStorage.begin(), addressIndex));
+    }
+    catch (const std::exception &e)
+    {
+      m_logger(ERROR, BRIGHT_RED) << "Failed to delete address: " << e.what();
+      startBlockchainSynchronizer();
+      throw;
+    }
+
     m_actualBalance -= it->actualBalance;
     m_pendingBalance -= it->pendingBalance;
     m_lockedDepositBalance -= it->lockedDepositBalance;
@@ -1819,8 +1831,6 @@ namespace cn
 
     m_walletsContainer.get<KeysIndex>().erase(it);
 
-    m_containerStorage.erase(std::next(m_containerStorage.begin(), addressIndex));
-
     if (m_walletsContainer.get<RandomAccessIndex>().size() != 0)
     {
       startBlockchainSynchronizer();
-- 
2.43.0


From 75814065c058acee8c4f61d9cddd1977400ebbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 37/39] fix: a damaged wallet cache made the wallet read beyond
 an array

---
 src/Wallet/WalletGreen.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 205a3f5..8c8ea60 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -4162,6 +4162,10 @@ namespace cn
       {
         heights2.push_back(info2.blockHeight);
       }
+      else
+      {
+        heights2.push_back(WALLET_UNCONFIRMED_TRANSACTION_HEIGHT);
+      }
     }
     uint64_t locked = calculateDepositsAmount(transfers2, m_currency, heights2);
 
@@ -4179,6 +4183,10 @@ namespace cn
       {
         heights.push_back(info.blockHeight);
       }
+      else
+      {
+        heights.push_back(WALLET_UNCONFIRMED_TRANSACTION_HEIGHT);
+      }
     }
     uint64_t unlocked = calculateDepositsAmount(transfers, m_currency, heights);
 
-- 
2.43.0


From 103aff5cccb7333275034e87d80f42f2face64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 38/39] fix: paying from an address named twice spent its
 outputs twice and lost them

---
 src/Wallet/WalletGreen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 8c8ea60..8752992 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -3122,8 +3122,15 @@ namespace cn
     std::vector<WalletOuts> wallets;
     wallets.reserve(addresses.size());
 
+    // an address named twice still has its outputs only once
+    std::set<std::string> picked;
     for (const auto &address : addresses)
     {
+      if (!picked.insert(address).second)
+      {
+        continue;
+      }
+
       WalletOuts wallet = pickWallet(address);
       if (!wallet.outs.empty())
       {
-- 
2.43.0


From 9290ad616e91633317492bc949a79daef846b4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 39/39] fix: a wallet saved right after sending forgot what the
 transaction paid

---
 src/Wallet/WalletGreen.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Wallet/WalletGreen.cpp b/src/Wallet/WalletGreen.cpp
index 8752992..ef0a829 100644
--- a/src/Wallet/WalletGreen.cpp
+++ b/src/Wallet/WalletGreen.cpp
@@ -946,6 +946,8 @@ namespace cn
     throwIfStopped();
 
     stopBlockchainSynchronizer();
+    // the synchronizer's state is saved, so what it has reported must be in the wallet too
+    waitForRemoteSpawns();
 
     try
     {
@@ -1014,6 +1016,7 @@ namespace cn
     throwIfNotInitialized();
     throwIfStopped();
     stopBlockchainSynchronizer();
+    waitForRemoteSpawns();
 
     try
     {
-- 
2.43.0

