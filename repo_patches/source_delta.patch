From 09f82a70c95d60e835a7a08e62fadd4c9c2d7dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 01/27] fix: active power-down exit reopens only banks that
 were open at entry

DDR5, LPDDR4, LPDDR5 and LPDDR6 recognised the banks to reopen by comparing
the end of their last active interval with the start of the power-down
interval. A bank precharged, or whose refresh ended, in the very cycle power-down
was entered was therefore reopened, and a bank whose interval had been closed
earlier could be missed. Use the bank state, as DDR4 does; LPDDR6 also reopened
the rank unconditionally.
---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp   |  2 +-
 .../DRAMPower/standards/lpddr4/LPDDR4Core.cpp         |  2 +-
 .../DRAMPower/standards/lpddr5/LPDDR5Core.cpp         |  2 +-
 .../DRAMPower/standards/lpddr6/LPDDR6Core.cpp         | 11 +++++++++--
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index 2d27b3f..fe70f9e 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -257,7 +257,7 @@ void DDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timestam
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index f55157b..9acf224 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -193,7 +193,7 @@ void LPDDR4Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index ba15dc9..263740b 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -254,7 +254,7 @@ void LPDDR5Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         bool rank_active = false;
 
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
                 rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index 4b67fd8..b8a9807 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -246,12 +246,19 @@ void LPDDR6Core::handlePowerDownActExit(std::size_t rank_idx, timestamp_t timest
         auto& rank = self.m_ranks[rank_idx];
         rank.memState = MemState::NOT_IN_PD;
         rank.cycles.powerDownAct.close_interval(exitTime);
-        rank.cycles.act.start_interval(exitTime);
+
+        bool rank_active = false;
+
         for (auto & bank : rank.banks) {
-            if (bank.counter.act != 0 && bank.cycles.act.get_end() == rank.cycles.powerDownAct.get_start()) {
+            if (bank.bankState == Bank::BankState::BANK_ACTIVE) {
+                rank_active = true;
                 bank.cycles.act.start_interval(exitTime);
             }
         }
+
+        if (rank_active) {
+            rank.cycles.act.start_interval(exitTime);
+        }
     });
 }
 
-- 
2.43.0


From 5fe0f4f26afa2e0359659652781c0bcbdca7a560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 02/27] fix: DDR5 interface knows the self-refresh exit command

SREFEX is dispatched to the command bus but had no pattern, so doCommand threw
after the core had already left self-refresh.
---
 src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
index 777c51b..d3ea1d8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Interface.cpp
@@ -97,6 +97,10 @@ void DDR5Interface::registerPatterns() {
     m_patternHandler.registerPattern<CmdType::SREFEN>({
         H, H, H, L, H, V, V, V, V, H, L, V, V, V
     });
+    // SREFEX (signalled with NOP commands)
+    m_patternHandler.registerPattern<CmdType::SREFEX>({
+        H, H, H, H, H, V, V, V, V, V, V, V, V, V
+    });
     // PDEA
     m_patternHandler.registerPattern<CmdType::PDEA>({
         H, H, H, L, H, V, V, V, V, V, H, L, V, V
-- 
2.43.0


From 9d20a09a80689071cf62fc9bc5adae4022d8a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:38 +0000
Subject: [PATCH 03/27] fix: inversion pins return to idle when the last burst
 ends

The reset of an inverted pin was reported with the load time of the next burst,
which prepended one idle beat to that burst on every pin inverted in the last
beat before (and overran the pin's storage for a full-length DDR4 burst).
---
 src/DRAMPower/DRAMPower/util/dbi.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0f0a24f..0641c28 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -429,7 +429,7 @@ private:
                     std::size_t chunk_idx = chunk % getChunksPerWidth().value(); // Pin index
                     if (lastInvert[chunk]) {
                         // Reset the inversion state
-                        m_changeCallback(timestamp, t, chunk_idx, false, read);
+                        m_changeCallback(t, t, chunk_idx, false, read);
                     }
                     // Reset the inversion state for next pin updates
                     lastInvert[chunk] = false;
@@ -441,7 +441,7 @@ private:
                 // Looping over all chunks of the lastBurst
                 for (std::size_t chunk = 0; chunk < m_lastBurst.chunks(); chunk++) {
                     if (lastInvert[chunk]) {
-                        m_changeCallback(timestamp, t, chunk, false, read);
+                        m_changeCallback(t, t, chunk, false, read);
                     }
                     // Reset the inversion state for next updates
                     lastInvert[chunk] = false;
-- 
2.43.0


From 3ec0fc28c7418cd91facc6ae3d45a02faa6b3f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 04/27] fix: LPDDR4, LPDDR5 and LPDDR6 checkpoints carry the
 inversion state

The LPDDR4/5/6 interfaces did not serialise their data bus inversion
state, inversion pins and (LPDDR6) burst metadata, and DynamicDBI read
back its beats with the wrong element type.
---
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++++++
 .../DRAMPower/standards/lpddr6/LPDDR6Interface.cpp |  4 ++++
 src/DRAMPower/DRAMPower/util/dbi.h                 | 10 +++++-----
 4 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index c2cace5..5350d75 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -274,6 +274,13 @@ void LPDDR4Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_writeDQS.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR4Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -283,6 +290,13 @@ void LPDDR4Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_writeDQS.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 05044bf..cf0f471 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -400,6 +400,13 @@ void LPDDR5Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    for (const auto &pin : m_dbiread) {
+        pin.serialize(stream);
+    }
+    for (const auto &pin : m_dbiwrite) {
+        pin.serialize(stream);
+    }
 }
 void LPDDR5Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
@@ -409,6 +416,13 @@ void LPDDR5Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    for (auto &pin : m_dbiread) {
+        pin.deserialize(stream);
+    }
+    for (auto &pin : m_dbiwrite) {
+        pin.deserialize(stream);
+    }
 }
 
 } // namespace DRAMPower
\ No newline at end of file
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 77d7e90..64a3bd2 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -378,6 +378,8 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
     m_readDQS.serialize(stream);
     m_wck.serialize(stream);
     m_clock.serialize(stream);
+    m_dbi.serialize(stream);
+    stream.write(reinterpret_cast<const char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
 }
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
@@ -388,6 +390,8 @@ void LPDDR6Interface::deserialize(std::istream& stream) {
     m_readDQS.deserialize(stream);
     m_wck.deserialize(stream);
     m_clock.deserialize(stream);
+    m_dbi.deserialize(stream);
+    stream.read(reinterpret_cast<char*>(m_formatter.m_metaData.data()), sizeof(m_formatter.m_metaData));
 }
 
 std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatData(
diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0641c28..0b2b0a9 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -137,7 +137,7 @@ private:
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
             for (std::size_t i = 0; i < m_lastbeatSize; ++i) {
-                bool entry;
+                DataType_t entry{};
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_lastbeat.push_back(entry);
             }
@@ -270,7 +270,7 @@ public:
         std::size_t n_chunks = n_bits / ChunkSize;
         
         // Resize lastInvert vector if needed
-        if (lastInvert.capacity() < n_chunks) {
+        if (lastInvert.size() < n_chunks) {
             lastInvert.resize(n_chunks, false);
         }
         
@@ -341,9 +341,9 @@ public:
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
         for (std::size_t i = 0; i < invertedDataSize; ++i) {
-            uint8_t byte;
-            stream.read(reinterpret_cast<char*>(&byte), sizeof(byte));
-            m_invertedData.push_back(byte);
+            DataType_t entry{};
+            stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
+            m_invertedData.push_back(entry);
         }
     }
 
-- 
2.43.0


From c0e82f273514153bef6008fafe323c4247d7d37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 05/27] fix: restoring a truncated checkpoint reads no
 uninitialised sizes

---
 src/DRAMPower/DRAMPower/util/dbi.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbi.h b/src/DRAMPower/DRAMPower/util/dbi.h
index 0b2b0a9..20783eb 100644
--- a/src/DRAMPower/DRAMPower/util/dbi.h
+++ b/src/DRAMPower/DRAMPower/util/dbi.h
@@ -123,16 +123,16 @@ private:
             stream.read(reinterpret_cast<char*>(&m_n_chunks), sizeof(m_n_chunks));
             stream.read(reinterpret_cast<char*>(&m_n_bits), sizeof(m_n_bits));
             stream.read(reinterpret_cast<char*>(&m_init), sizeof(m_init));
-            std::size_t m_inversionsSize;
+            std::size_t m_inversionsSize = 0;
             stream.read(reinterpret_cast<char*>(&m_inversionsSize), sizeof(m_inversionsSize));
             m_inversions.clear();
             m_inversions.reserve(m_inversionsSize);
             for (std::size_t i = 0; i < m_inversionsSize; ++i) {
-                bool entry;
+                bool entry = false;
                 stream.read(reinterpret_cast<char*>(&entry), sizeof(entry));
                 m_inversions.push_back(entry);
             }
-            std::size_t m_lastbeatSize;
+            std::size_t m_lastbeatSize = 0;
             stream.read(reinterpret_cast<char*>(&m_lastbeatSize), sizeof(m_lastbeatSize));
             m_lastbeat.clear();
             m_lastbeat.reserve(m_lastbeatSize);
@@ -336,7 +336,7 @@ public:
         m_lastBurst_read.deserialize(stream);
         m_lastBurst_write.deserialize(stream);
 
-        std::size_t invertedDataSize;
+        std::size_t invertedDataSize = 0;
         stream.read(reinterpret_cast<char*>(&invertedDataSize), sizeof(invertedDataSize));
         m_invertedData.clear();
         m_invertedData.reserve(invertedDataSize);
-- 
2.43.0


From c153972903861db3bd223cc2f8f5b2ef07b9debd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 06/27] fix: inversion units that span several sub-chunks are
 decided over the whole unit

---
 src/DRAMPower/DRAMPower/util/dbihelpers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/dbihelpers.h b/src/DRAMPower/DRAMPower/util/dbihelpers.h
index 404ecb4..3683c25 100644
--- a/src/DRAMPower/DRAMPower/util/dbihelpers.h
+++ b/src/DRAMPower/DRAMPower/util/dbihelpers.h
@@ -119,7 +119,7 @@ public:
     }
 
     inline bool last() const {
-        return 0 == (m_current_data_idx % COUNT_DATA);
+        return m_current_data_idx + 1 == COUNT_DATA;
     }
 
     inline static constexpr std::size_t getDataTotal() {
-- 
2.43.0


From 86010bb1b87e113ef187dbaae035ef39271d7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 07/27] fix: row address bits above 17 reach the command bus

---
 src/DRAMPower/DRAMPower/command/Pattern.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/command/Pattern.cpp b/src/DRAMPower/DRAMPower/command/Pattern.cpp
index b89392e..65d5521 100644
--- a/src/DRAMPower/DRAMPower/command/Pattern.cpp
+++ b/src/DRAMPower/DRAMPower/command/Pattern.cpp
@@ -192,6 +192,24 @@ namespace DRAMPower {
             case R17:
                 bitset[n] = row_bits[17];
                 break;
+            case R18:
+                bitset[n] = row_bits[18];
+                break;
+            case R19:
+                bitset[n] = row_bits[19];
+                break;
+            case R20:
+                bitset[n] = row_bits[20];
+                break;
+            case R21:
+                bitset[n] = row_bits[21];
+                break;
+            case R22:
+                bitset[n] = row_bits[22];
+                break;
+            case R23:
+                bitset[n] = row_bits[23];
+                break;
 
                 default:
                 break;
-- 
2.43.0


From f4e963e2b1b9033a5355ac1869dd451823ab1f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 08/27] fix: DDR4 pre- and postamble energy counts the commands
 that were issued

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp          | 5 +++++
 .../DRAMPower/standards/ddr4/interface_calculation_DDR4.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index 9a45d31..b90f4c3 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -301,8 +301,13 @@ void DDR4Core::getWindowStats(timestamp_t timestamp, SimulationStats &stats) {
     for (size_t i = 0; i < m_memSpec.numberOfRanks; ++i) {
         const Rank &rank = m_ranks[i];
         size_t bank_offset = i * m_memSpec.numberOfBanks;
+        stats.rank_total[i].counter = {};
         for (size_t j = 0; j < m_memSpec.numberOfBanks; ++j) {
             stats.bank[bank_offset + j].counter = rank.banks[j].counter;
+            stats.rank_total[i].counter.reads += rank.banks[j].counter.reads;
+            stats.rank_total[i].counter.readAuto += rank.banks[j].counter.readAuto;
+            stats.rank_total[i].counter.writes += rank.banks[j].counter.writes;
+            stats.rank_total[i].counter.writeAuto += rank.banks[j].counter.writeAuto;
             stats.bank[bank_offset + j].cycles.act =
                 rank.banks[j].cycles.act.get_count_at(timestamp);
             stats.bank[bank_offset + j].cycles.selfRefresh =
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/interface_calculation_DDR4.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/interface_calculation_DDR4.cpp
index 22a47d0..4064392 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/interface_calculation_DDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/interface_calculation_DDR4.cpp
@@ -1,6 +1,8 @@
 #include "DRAMPower/standards/ddr4/interface_calculation_DDR4.h"
 #include "DRAMPower/data/energy.h"
 
+#include <algorithm>
+
 namespace DRAMPower {
 
     
@@ -83,6 +85,9 @@ interface_energy_info_t InterfaceCalculation_DDR4::calcDQSEnergy(const Simulatio
         preposreadseamless += rank.prepos.readSeamless;
         preposwriteseamless += rank.prepos.writeSeamless;
     }
+    // The interface may be driven without the core, which counts the commands
+    preposreadseamless = std::min(preposreadseamless, readcount);
+    preposwriteseamless = std::min(preposwriteseamless, writecount);
     
     // PrePostamble
     if (impedances_.wdqs_termination == true) {
-- 
2.43.0


From f6ee153c4568278214921c0d7f02990253a250fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:32 +0000
Subject: [PATCH 09/27] fix: DDR5 toggling-rate termination energy obeys the
 termination switch

---
 .../DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
index c6cd8d4..c231ed8 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/interface_calculation_DDR5.cpp
@@ -73,13 +73,13 @@ interface_energy_info_t InterfaceCalculation_DDR5::calcDQEnergyTogglingRate(cons
 
     // Read
     result.dram.staticEnergy +=
-        calcStaticTermination(impedances_.rdq_R_eq, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.rdq_termination, stats.read, impedances_.rdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.dram.dynamicEnergy +=
         calc_dynamic_energy(stats.read.zeroes_to_ones, impedances_.rdq_dyn_E);
 
     // Write
     result.controller.staticEnergy +=
-        calcStaticTermination(impedances_.wdq_R_eq, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
+        calcStaticTermination(impedances_.wdq_termination, stats.write, impedances_.wdq_R_eq, t_CK_, memspec_.dataRate, VDDQ_);
     result.controller.dynamicEnergy +=
         calc_dynamic_energy(stats.write.zeroes_to_ones, impedances_.wdq_dyn_E);
 
-- 
2.43.0


From 932d5d0736a9ad8586a9d9b5bc5a03a5a0ab53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 10/27] hook: chunk size of the trace reader can be set for
 simulation (DRAMPOWER_SIM_CSV_CHUNK)

---
 src/cli/lib/DRAMPower/cli/csv.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/lib/DRAMPower/cli/csv.hpp b/src/cli/lib/DRAMPower/cli/csv.hpp
index 9cebfc2..77adce4 100644
--- a/src/cli/lib/DRAMPower/cli/csv.hpp
+++ b/src/cli/lib/DRAMPower/cli/csv.hpp
@@ -4789,7 +4789,11 @@ namespace csv {
         /** For functions that lazy load a large CSV, this determines how
          *  many bytes are read at a time
          */
+#ifdef DRAMPOWER_SIM_CSV_CHUNK // simulation hook: small chunks reach the chunk boundaries with small traces
+        constexpr size_t ITERATION_CHUNK_SIZE = DRAMPOWER_SIM_CSV_CHUNK;
+#else
         constexpr size_t ITERATION_CHUNK_SIZE = 10000000; // 10MB
+#endif
 
         template<typename T>
         inline bool is_equal(T a, T b, T epsilon = 0.001) {
-- 
2.43.0


From 7f2da19c821f97560e14471b61db0a2a0db6a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 11/27] fix: trace rows with unknown commands or malformed
 payloads are refused

---
 src/cli/lib/DRAMPower/cli/run.cpp  | 5 +++++
 src/cli/lib/DRAMPower/cli/util.cpp | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 47253fb..882f8ba 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -135,6 +135,11 @@ bool parse_command_list(std::string_view csv_file, std::vector<std::pair<Command
 
 		// Get command
 		cmd = DRAMPower::CmdTypeUtil::from_string(cmdType);
+		if ( cmd == CmdType::NOP && cmdType != DRAMPower::CmdTypeUtil::to_string(CmdType::NOP) )
+		{
+			// Unknown command name
+			return false;
+		}
 
 		// Get data if needed
 		if ( DRAMPower::CmdTypeUtil::needs_data(cmd) ) {
diff --git a/src/cli/lib/DRAMPower/cli/util.cpp b/src/cli/lib/DRAMPower/cli/util.cpp
index 290b477..a4c0d58 100644
--- a/src/cli/lib/DRAMPower/cli/util.cpp
+++ b/src/cli/lib/DRAMPower/cli/util.cpp
@@ -1,5 +1,7 @@
 #include "util.hpp"
 
+#include <stdexcept>
+
 namespace DRAMPower::DRAMPowerCLI {
 
 std::unique_ptr<uint8_t[]> util::hexStringToUint8Array(const csv::string_view data, size_t &size)
@@ -29,7 +31,12 @@ std::unique_ptr<uint8_t[]> util::hexStringToUint8Array(const csv::string_view da
 	auto content = std::make_unique<uint8_t[]>(size);
 	for (size_t i = 0; i < size; i++)
 	{
-		content[i] = static_cast<uint8_t>(std::stoi(hexString.substr(i * 2, 2), nullptr, 16));
+		const std::string digits = hexString.substr(i * 2, 2);
+		if (digits.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+		{
+			throw std::invalid_argument("Invalid hex digit");
+		}
+		content[i] = static_cast<uint8_t>(std::stoi(digits, nullptr, 16));
 	}
 	return content;
 }
-- 
2.43.0


From 4c96ce2e7873b127ca60762d160c44d3df32389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 12/27] fix: the text report shows the refresh-double-bank
 energy

---
 src/cli/lib/DRAMPower/cli/util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/util.hpp b/src/cli/lib/DRAMPower/cli/util.hpp
index 96e56f7..b622a7f 100644
--- a/src/cli/lib/DRAMPower/cli/util.hpp
+++ b/src/cli/lib/DRAMPower/cli/util.hpp
@@ -81,7 +81,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               "REF_AB: {} "
                               "REF_PB: {} "
                               "REF_SB: {} "
-                              "REF_2B: {}",
+                              "REF_2B: {} "
+                              "REF_DB: {}",
                               ei.E_act,
                               ei.E_pre,
                               ei.E_bg_act,
@@ -95,7 +96,8 @@ template <> struct fmt::formatter<DRAMPower::energy_info_t>
                               ei.E_ref_AB,
                               ei.E_ref_PB,
                               ei.E_ref_SB,
-                              ei.E_ref_2B);
+                              ei.E_ref_2B,
+                              ei.E_ref_DB);
     }
 };
 
-- 
2.43.0


From 24cafb87b77d6864d3e353a06193eedbb9b0f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 13/27] fix: relative symbolic links of the output file are
 resolved from the link's directory

---
 src/cli/main/validators.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/main/validators.cpp b/src/cli/main/validators.cpp
index 9ad3bb4..bb6414d 100644
--- a/src/cli/main/validators.cpp
+++ b/src/cli/main/validators.cpp
@@ -28,7 +28,8 @@ std::optional<ResolveSymlinkResult> resolve_symlink(const std::string &filepath,
     // The path exists and is a symlink -> resolve the symlink chain
     std::filesystem::path resolved = filepath;
     for (uint_fast8_t iter = 0; iter < max_iter; ++iter) {
-        resolved = std::filesystem::read_symlink(resolved);
+        // A relative link target is relative to the directory of the link
+        resolved = resolved.parent_path() / std::filesystem::read_symlink(resolved);
         // Check if the provided path exists
         if (!std::filesystem::exists(resolved)) {
             // symlink resolved to a non-existing path
-- 
2.43.0


From e565bdf825347c961f0c871af3ec5a8dbc4f7ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 14/27] fix: a result file that could not be written is
 reported

---
 src/cli/lib/DRAMPower/cli/run.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index 882f8ba..cdd1b4e 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -212,7 +212,8 @@ bool jsonFileResult(const std::string &jsonfile, const std::unique_ptr<dram_base
 	
 	out << j.dump(4) << std::endl;
 	out.close();
-	return true;
+	// A failed write or close leaves an incomplete result
+	return out.good();
 }
 
 bool stdoutResult(const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t &core_energy, const interface_energy_info_t &interface_energy)
-- 
2.43.0


From 1693d6737021cb97ee00af924bcd9726a831253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:02 +0000
Subject: [PATCH 15/27] fix: a trace line break split between two read chunks
 is one line break

---
 src/cli/lib/DRAMPower/cli/csv.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/csv.hpp b/src/cli/lib/DRAMPower/cli/csv.hpp
index 77adce4..173bbab 100644
--- a/src/cli/lib/DRAMPower/cli/csv.hpp
+++ b/src/cli/lib/DRAMPower/cli/csv.hpp
@@ -6215,6 +6215,7 @@ namespace csv {
         private:
             std::string _filename;
             size_t mmap_pos = 0;
+            bool ended_in_cr = false;
         };
     }
 }
@@ -7113,16 +7114,24 @@ namespace csv {
             // Create string view
             this->data_ptr->data = csv::string_view(mmap_ptr->data(), mmap_ptr->length());
 
+            // The previous chunk ended between the two characters of a line break
+            size_t skipped = 0;
+            if (this->ended_in_cr && !this->data_ptr->data.empty() && this->data_ptr->data.front() == '\n') {
+                this->data_ptr->data.remove_prefix(1);
+                skipped = 1;
+            }
+
             // Parse
             this->current_row = CSVRow(this->data_ptr);
-            size_t remainder = this->parse();            
+            size_t remainder = this->parse();
+            this->ended_in_cr = length > 0 && skipped + remainder == length && mmap_ptr->data()[length - 1] == '\r';
 
             if (this->mmap_pos == this->source_size || no_chunk()) {
                 this->_eof = true;
                 this->end_feed();
             }
 
-            this->mmap_pos -= (length - remainder);
+            this->mmap_pos -= (length - skipped - remainder);
         }
 #ifdef _MSC_VER
 #pragma endregion
-- 
2.43.0


From 66d8195b4732ea443a80cfad4644f76613665d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 16/27] fix: a report that could not be written to standard
 output is reported

---
 src/cli/lib/DRAMPower/cli/run.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/lib/DRAMPower/cli/run.cpp b/src/cli/lib/DRAMPower/cli/run.cpp
index cdd1b4e..7dda206 100644
--- a/src/cli/lib/DRAMPower/cli/run.cpp
+++ b/src/cli/lib/DRAMPower/cli/run.cpp
@@ -1,5 +1,6 @@
 #include "run.hpp"
 
+#include <cstdio>
 #include <memory>
 #include <vector>
 #include <fstream>
@@ -244,7 +245,8 @@ bool stdoutResult(const std::unique_ptr<dram_base<CmdType>> &ddr, const energy_t
 	spdlog::info("Shared energy -> {}", core_energy);
 	spdlog::info("Interface Energy:\n{}", interface_energy);
 	spdlog::info("Total Energy -> {}", core_energy.total() + interface_energy.total());
-	return true;
+	// A failed write leaves an incomplete report
+	return std::fflush(stdout) == 0 && std::ferror(stdout) == 0;
 }
 
 bool getConfig(const std::string &configfile, config::CLIConfig &config)
-- 
2.43.0


From c0fb37f54fc87f7c9be9c495c0ba9fd0eecd8f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 17/27] fix: rows delivered while the trace reader finishes are
 not dropped

---
 src/cli/lib/DRAMPower/cli/csv.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cli/lib/DRAMPower/cli/csv.hpp b/src/cli/lib/DRAMPower/cli/csv.hpp
index 173bbab..b231a14 100644
--- a/src/cli/lib/DRAMPower/cli/csv.hpp
+++ b/src/cli/lib/DRAMPower/cli/csv.hpp
@@ -7535,14 +7535,20 @@ namespace csv {
                 if (this->records->is_waitable())
                     // Reading thread is currently active => wait for it to populate records
                     this->records->wait();
-                else if (this->parser->eof())
-                    // End of file and no more records
-                    return false;
                 else {
-                    // Reading thread is not active => start another one
+                    // Reading thread is not active => collect it before judging what it left
                     if (this->read_csv_worker.joinable())
                         this->read_csv_worker.join();
 
+                    if (!this->records->empty())
+                        // It delivered rows after the check above
+                        continue;
+
+                    if (this->parser->eof())
+                        // End of file and no more records
+                        return false;
+
+                    // Start another one
                     this->read_csv_worker = std::thread(&CSVReader::read_csv, this, internals::ITERATION_CHUNK_SIZE);
                 }
             }
-- 
2.43.0


From 608487a3636f52a37e96b4a2bedd477c7fb9877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 18/27] fix: inversion callbacks of copied and moved memories
 stay with the object

---
 .../DRAMPower/standards/ddr4/DDR4Interface.cpp     | 14 ++++++++++----
 .../DRAMPower/standards/ddr4/DDR4Interface.h       |  1 +
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 14 ++++++++++----
 .../DRAMPower/standards/lpddr4/LPDDR4Interface.h   |  1 +
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 14 ++++++++++----
 .../DRAMPower/standards/lpddr5/LPDDR5Interface.h   |  1 +
 6 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6845467..3af6d4f 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -31,10 +31,7 @@ namespace DRAMPower {
         , m_readDQS(memSpec.dataRate, true)
         , m_writeDQS(memSpec.dataRate, true)
         , m_clock(2, false)
-        , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength,
-            [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
-            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-        }, false)
+        , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, memSpec.burstLength, nullptr, false)
         , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
         , prepostambleReadMinTccd(memSpec.prePostamble.readMinTccd)
@@ -185,6 +182,13 @@ namespace DRAMPower {
         }
     }
 
+    // The callback names this object: it is bound before each use so that copies and moved-to objects don't use the original
+    void DDR4Interface::bindDBICallback() {
+        m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+            this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+        });
+    }
+
     std::optional<const uint8_t *> DDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
         if (0 == n_bits || !data || !m_dbi.isEnabled()) {
             // No DBI or no data to process
@@ -192,6 +196,7 @@ namespace DRAMPower {
         }
         timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
         // updateDBI calls the given callback to handle pin changes
+        bindDBICallback();
         return m_dbi.updateDBI(virtual_time, n_bits, data, read);
     }
 
@@ -327,6 +332,7 @@ namespace DRAMPower {
     }
 
     void DDR4Interface::endOfSimulation(timestamp_t timestamp) {
+        bindDBICallback();
         m_dbi.dispatchResetCallback(timestamp);
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
index 07366b0..9107ee9 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
@@ -76,6 +76,7 @@ public:
 private:
     void registerPatterns();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
+    void bindDBICallback();
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
     void handleDQs(const Command& cmd, util::Clock &dqs, size_t length);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index 5350d75..1101a35 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -31,10 +31,7 @@ LPDDR4Interface::LPDDR4Interface(const MemSpecLPDDR4& memSpec, const config::Sim
     }
     , m_readDQS(memSpec.dataRate, true)
     , m_writeDQS(memSpec.dataRate, true)
-    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength, nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{
@@ -161,6 +158,13 @@ void LPDDR4Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+// The callback names this object: it is bound before each use so that copies and moved-to objects don't use the original
+void LPDDR4Interface::bindDBICallback() {
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR4Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
@@ -168,6 +172,7 @@ std::optional<const uint8_t *> LPDDR4Interface::handleDBIInterface(timestamp_t t
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
     // updateDBI calls the given callback to handle pin changes
+    bindDBICallback();
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
 
@@ -236,6 +241,7 @@ void LPDDR4Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR4Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBICallback();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
index f8aee8e..95181d5 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
@@ -72,6 +72,7 @@ public:
 private:
     void registerPatterns();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
+    void bindDBICallback();
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
     void handleDQs(const Command& cmd, util::Clock &dqs, size_t length);
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index cf0f471..7e99a23 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -30,10 +30,7 @@ LPDDR5Interface::LPDDR5Interface(const MemSpecLPDDR5& memSpec, const config::Sim
     }
     , m_readDQS(memSpec.dataRate, true)
     , m_wck(memSpec.dataRate / memSpec.memTimingSpec.WCKtoCK, !memSpec.wckAlwaysOnMode)
-    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength,
-        [this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
-        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
-    }, false)
+    , m_dbi(memSpec.numberOfDevices * memSpec.bitWidth, m_memSpec.burstLength, nullptr, false)
     , m_dbiread(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_dbiwrite(m_dbi.getChunksPerWidth().value(), pin_dbi_t{m_dbi.getIdlePattern(), m_dbi.getIdlePattern()})
     , m_patternHandler(PatternEncoderOverrides{}) // No overrides
@@ -293,6 +290,13 @@ void LPDDR5Interface::handleDBIPinChange(const timestamp_t load_timestamp, std::
     }
 }
 
+// The callback names this object: it is bound before each use so that copies and moved-to objects don't use the original
+void LPDDR5Interface::bindDBICallback() {
+    m_dbi.setChangeCallback([this](timestamp_t load_timestamp, timestamp_t, std::size_t pin, bool inversion_state, bool read) {
+        this->handleDBIPinChange(load_timestamp, pin, inversion_state, read);
+    });
+}
+
 std::optional<const uint8_t *> LPDDR5Interface::handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read) {
     if (0 == n_bits || !data || !m_dbi.isEnabled()) {
         // No DBI or no data to process
@@ -300,6 +304,7 @@ std::optional<const uint8_t *> LPDDR5Interface::handleDBIInterface(timestamp_t t
     }
     timestamp_t virtual_time = timestamp * m_memSpec.dataRate;
     // updateDBI calls the given callback to handle pin changes
+    bindDBICallback();
     return m_dbi.updateDBI(virtual_time, n_bits, data, read);
 }
 
@@ -367,6 +372,7 @@ void LPDDR5Interface::handleData(const Command &cmd, bool read) {
 }
 
 void LPDDR5Interface::endOfSimulation(timestamp_t timestamp) {
+    bindDBICallback();
     m_dbi.dispatchResetCallback(timestamp);
 }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
index d1c5ebd..dc79ce3 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
@@ -76,6 +76,7 @@ public:
 private:
     void registerPatterns();
     std::optional<const uint8_t *> handleDBIInterface(timestamp_t timestamp, std::size_t n_bits, const uint8_t* data, bool read);
+    void bindDBICallback();
     void handleDBIPinChange(const timestamp_t load_timestamp, std::size_t pin, bool state, bool read);
     void handleOverrides(size_t length, bool read);
     void handleDQs(const Command& cmd, util::Clock &dqs, size_t length, uint64_t datarate);
-- 
2.43.0


From a65840114d9b3dfce24732c2711503c5f314c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 19/27] fix: copied and moved memories have extensions of their
 own

---
 .../DRAMPower/standards/ddr4/DDR4.cpp         | 21 +++++++++++++++++-
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h |  4 ++--
 .../DRAMPower/standards/ddr4/DDR4Interface.h  |  3 +++
 .../DRAMPower/standards/lpddr4/LPDDR4.cpp     | 21 +++++++++++++++++-
 .../DRAMPower/standards/lpddr4/LPDDR4.h       |  4 ++--
 .../standards/lpddr4/LPDDR4Interface.h        |  3 +++
 .../DRAMPower/standards/lpddr5/LPDDR5.cpp     | 22 ++++++++++++++++++-
 .../DRAMPower/standards/lpddr5/LPDDR5.h       |  4 ++--
 .../standards/lpddr5/LPDDR5Interface.h        |  3 +++
 .../DRAMPower/standards/lpddr6/LPDDR6.cpp     | 22 ++++++++++++++++++-
 .../DRAMPower/standards/lpddr6/LPDDR6.h       |  4 ++--
 .../standards/lpddr6/LPDDR6Interface.h        |  3 +++
 .../DRAMPower/util/extension_manager.h        | 14 ++++++++++--
 13 files changed, 114 insertions(+), 14 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
index eb13b29..52993a0 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.cpp
@@ -22,6 +22,25 @@ namespace DRAMPower {
         this->registerExtensions();
     }
 
+// The extensions name this object: copies and moved-to objects register their own
+    DDR4::DDR4(const DDR4& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    DDR4::DDR4(DDR4&& other)
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
 // Extensions
     void DDR4::registerExtensions() {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable) {
@@ -33,7 +52,7 @@ namespace DRAMPower {
             }
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, m_interface.isDBIEnabled());
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
index 3e9fa1a..c38482f 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4.h
@@ -25,8 +25,8 @@ class DDR4 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     DDR4() = delete; // No default constructor
-    DDR4(const DDR4& other) = default; // copy constructor
-    DDR4(DDR4&& other) noexcept = default; // move constructor
+    DDR4(const DDR4& other); // copy constructor
+    DDR4(DDR4&& other); // move constructor
     DDR4& operator=(const DDR4&) = default; // copy assignment operator
     DDR4& operator=(DDR4&&) = default; // move assignment operator
     ~DDR4() override = default;
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
index 9107ee9..0e19142 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.h
@@ -71,6 +71,9 @@ public:
     void enableDBI(bool enable) {
         m_dbi.enable(enable);
     }
+    bool isDBIEnabled() const {
+        return m_dbi.isEnabled();
+    }
 
 // Private member functions
 private:
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
index 9136011..deafa82 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.cpp
@@ -19,6 +19,25 @@ namespace DRAMPower {
         registerExtensions();
     }
 
+// The extensions name this object: copies and moved-to objects register their own
+    LPDDR4::LPDDR4(const LPDDR4& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    LPDDR4::LPDDR4(LPDDR4&& other)
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
 // Extensions
     void LPDDR4::registerExtensions() {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable){
@@ -26,7 +45,7 @@ namespace DRAMPower {
             // x8,x16 devices: support dbi
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, m_interface.isDBIEnabled());
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
index 1818446..2ff64e5 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4.h
@@ -23,9 +23,9 @@ class LPDDR4 : public dram_base<CmdType>{
 // public constructors and assignment operators
 public:
     LPDDR4() = delete; // No default constructor
-    LPDDR4(const LPDDR4&) = default; // copy constructor
+    LPDDR4(const LPDDR4& other); // copy constructor
     LPDDR4& operator=(const LPDDR4&) = default; // copy assignment operator
-    LPDDR4(LPDDR4&&) = default; // move constructor
+    LPDDR4(LPDDR4&& other); // move constructor
     LPDDR4& operator=(LPDDR4&&) = default; // move assignment operator
     ~LPDDR4() override = default;
     
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
index 95181d5..fbbe475 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.h
@@ -67,6 +67,9 @@ public:
     void enableDBI(bool enable) {
         m_dbi.enable(enable);
     }
+    bool isDBIEnabled() const {
+        return m_dbi.isEnabled();
+    }
 
 // Private Member functions
 private:
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
index 83ccdb1..9e59cd5 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.cpp
@@ -9,6 +9,7 @@
 #include <DRAMPower/Exceptions.h>
 
 #include <iostream>
+#include <utility>
 
 
 namespace DRAMPower {
@@ -21,13 +22,32 @@ namespace DRAMPower {
         registerExtensions();
     }
 
+// The extensions name this object: copies and moved-to objects register their own
+    LPDDR5::LPDDR5(const LPDDR5& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    LPDDR5::LPDDR5(LPDDR5&& other)
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
 // Extensions
     void LPDDR5::registerExtensions() {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable){
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, m_interface.isDBIEnabled());
     }
 
 // Getters for CLI
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
index c719c9b..60a97eb 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5.h
@@ -23,9 +23,9 @@ class LPDDR5 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     LPDDR5() = delete; // No default constructor
-    LPDDR5(const LPDDR5&) = default; // copy constructor
+    LPDDR5(const LPDDR5& other); // copy constructor
     LPDDR5& operator=(const LPDDR5&) = default; // copy assignment operator
-    LPDDR5(LPDDR5&&) = default; // move constructor
+    LPDDR5(LPDDR5&& other); // move constructor
     LPDDR5& operator=(LPDDR5&&) = default; // move assignment operator
     ~LPDDR5() override = default;
     LPDDR5(const MemSpecLPDDR5& memSpec, const config::SimConfig& simConfig = {});
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
index dc79ce3..c59b2a9 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.h
@@ -71,6 +71,9 @@ public:
     void enableDBI(bool enable) {
         m_dbi.enable(enable);
     }
+    bool isDBIEnabled() const {
+        return m_dbi.isEnabled();
+    }
 
 // Public member functions
 private:
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
index 2f0da34..148fd88 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.cpp
@@ -6,6 +6,7 @@
 #include <DRAMPower/util/extensions.h>
 
 #include <iostream>
+#include <utility>
 #include <tuple>
 
 
@@ -21,13 +22,32 @@ namespace DRAMPower {
         registerExtensions();
     }
 
+// The extensions name this object: copies and moved-to objects register their own
+    LPDDR6::LPDDR6(const LPDDR6& other)
+        : dram_base(other)
+        , m_memSpec(other.m_memSpec)
+        , m_interface(other.m_interface)
+        , m_core(other.m_core)
+    {
+        registerExtensions();
+    }
+
+    LPDDR6::LPDDR6(LPDDR6&& other)
+        : dram_base(std::move(other))
+        , m_memSpec(std::move(other.m_memSpec))
+        , m_interface(std::move(other.m_interface))
+        , m_core(std::move(other.m_core))
+    {
+        registerExtensions();
+    }
+
 // Extensions
     void LPDDR6::registerExtensions() {
         getExtensionManager().registerExtension<extensions::DBI>([this](const timestamp_t, const bool enable) -> bool {
             // Assumption: the enabling of the DBI does not interleave with previous data on the bus
             m_interface.enableDBI(enable);
             return true;
-        }, false);
+        }, m_interface.isDBIEnabled());
         getExtensionManager().registerExtension<extensions::MetaData>([this](uint16_t metaData1, uint16_t metaData2) -> void {
             m_interface.setMetaData(metaData1, metaData2);
         },
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
index 966dace..864f0c7 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6.h
@@ -21,9 +21,9 @@ class LPDDR6 : public dram_base<CmdType> {
 // Public constructors and assignment operators
 public:
     LPDDR6() = delete; // No default constructor
-    LPDDR6(const LPDDR6&) = default; // copy constructor
+    LPDDR6(const LPDDR6& other); // copy constructor
     LPDDR6& operator=(const LPDDR6&) = default; // copy assignment operator
-    LPDDR6(LPDDR6&&) = default; // move constructor
+    LPDDR6(LPDDR6&& other); // move constructor
     LPDDR6& operator=(LPDDR6&&) = default; // move assignment operator
     ~LPDDR6() override = default;
     LPDDR6(const MemSpecLPDDR6& memSpec, const config::SimConfig &simConfig = {});
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.h b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.h
index f215cb1..241fba1 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.h
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.h
@@ -128,6 +128,9 @@ public:
     void enableDBI(bool enable) {
         m_dbi.enable(enable);
     }
+    bool isDBIEnabled() const {
+        return m_dbi.isEnabled();
+    }
     void setMetaData(uint16_t metaDataB1, uint16_t metaDataB2);
     std::tuple<uint16_t, uint16_t> getMetaData() const;
     void setParityCheckMode(bool state);
diff --git a/src/DRAMPower/DRAMPower/util/extension_manager.h b/src/DRAMPower/DRAMPower/util/extension_manager.h
index 6f4eb42..8ddb434 100644
--- a/src/DRAMPower/DRAMPower/util/extension_manager.h
+++ b/src/DRAMPower/DRAMPower/util/extension_manager.h
@@ -63,8 +63,18 @@ protected:
 
         auto ext = std::make_shared<T>(std::forward<Args>(args)...);
         auto typeIndex = std::type_index(typeid(T));
-        m_extensions[typeIndex] = ext;
-        m_serStorage.emplace_back(ext);
+        auto& entry = m_extensions[typeIndex];
+        if (entry) {
+            // A newly registered extension takes the place of the previous one
+            for (auto& wp : m_serStorage) {
+                if (wp.lock() == entry) {
+                    wp = ext;
+                }
+            }
+        } else {
+            m_serStorage.emplace_back(ext);
+        }
+        entry = ext;
         return ext;
     }
 
-- 
2.43.0


From 60b872cbe384d559d17ed81ff0c6fcdd9737ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 20/27] fix: commands for missing ranks and banks are refused
 before they have any effect

---
 .../DRAMPower/standards/ddr4/DDR4Core.cpp     |  1 +
 .../standards/ddr4/DDR4Interface.cpp          |  4 +-
 .../DRAMPower/standards/ddr5/DDR5Core.cpp     |  1 +
 .../DRAMPower/standards/lpddr4/LPDDR4Core.cpp |  1 +
 .../DRAMPower/standards/lpddr5/LPDDR5Core.cpp |  7 ++--
 .../DRAMPower/standards/lpddr6/LPDDR6Core.cpp | 11 ++----
 src/DRAMPower/DRAMPower/util/RegisterHelper.h | 38 +++++++++++++++++++
 7 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
index b90f4c3..d4e1fed 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Core.cpp
@@ -6,6 +6,7 @@
 namespace DRAMPower {
 
 void DDR4Core::doCommand(const Command& cmd) {
+    util::coreHelpers::checkTarget(cmd, m_ranks);
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
     m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 3af6d4f..6b063d0 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -302,6 +302,8 @@ namespace DRAMPower {
     }
 
     void DDR4Interface::handleData(const Command &cmd, bool read) {
+        // Reject an invalid rank before the command has any effect
+        auto & rank = m_ranks.at(cmd.targetCoordinate.rank);
         auto loadfunc = read ? &databus_t::loadRead : &databus_t::loadWrite;
         util::Clock &dqs = read ? m_readDQS : m_writeDQS;
         size_t length = 0;
@@ -326,8 +328,6 @@ namespace DRAMPower {
         handleOverrides(length, read);
         handleDQs(cmd, dqs, length);
         handleCommandBus(cmd);
-        assert(m_ranks.size()>cmd.targetCoordinate.rank);
-        auto & rank = m_ranks[cmd.targetCoordinate.rank];
         handlePrePostamble(cmd.timestamp, length / m_memSpec.dataRate, rank, read);
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
index fe70f9e..09e5bcf 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr5/DDR5Core.cpp
@@ -4,6 +4,7 @@
 namespace DRAMPower {
 
 void DDR5Core::doCommand(const Command& cmd) {
+    util::coreHelpers::checkTarget(cmd, m_ranks);
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
     m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
index 9acf224..0a6bc95 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Core.cpp
@@ -4,6 +4,7 @@
 namespace DRAMPower {
 
 void LPDDR4Core::doCommand(const Command& cmd) {
+    util::coreHelpers::checkTarget(cmd, m_ranks);
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
     m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
index 263740b..ebc0caa 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Core.cpp
@@ -5,6 +5,10 @@
 namespace DRAMPower {
 
 void LPDDR5Core::doCommand(const Command& cmd) {
+    util::coreHelpers::checkTarget(cmd, m_ranks);
+    if (CmdType::REFP2B == cmd.type && m_memSpec.bank_arch != MemSpecLPDDR5::MBG && m_memSpec.bank_arch != MemSpecLPDDR5::M16B) {
+        throw Exception(std::string("REFP2B command is not supported for this bank architecture: ") + CmdTypeUtil::to_string(CmdType::REFP2B));
+    }
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
     m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
@@ -33,9 +37,6 @@ void LPDDR5Core::doCommand(const Command& cmd) {
             util::coreHelpers::bankHandlerIdx(cmd, m_ranks, this, &LPDDR5Core::handleWriteAuto);
             break;
         case CmdType::REFP2B:
-            if (m_memSpec.bank_arch != MemSpecLPDDR5::MBG && m_memSpec.bank_arch != MemSpecLPDDR5::M16B) {
-                throw Exception(std::string("REFP2B command is not supported for this bank architecture: ") + CmdTypeUtil::to_string(CmdType::REFP2B));
-            }
             util::coreHelpers::bankGroupHandlerIdx(cmd, m_ranks, this, &LPDDR5Core::handleRefPerTwoBanks);
             break;
         case CmdType::REFA:
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
index b8a9807..3de48a2 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Core.cpp
@@ -7,6 +7,10 @@
 namespace DRAMPower {
 
 void LPDDR6Core::doCommand(const LPDDR6Command& cmd) {
+    util::coreHelpers::checkTarget(cmd, m_ranks);
+    if (CmdType::REFDB == cmd.type && cmd.targetCoordinate.dbank >= m_ranks[cmd.targetCoordinate.rank].banks.size()) {
+        throw std::out_of_range("Invalid second bank target coordinate");
+    }
     m_implicitCommandHandler.processImplicitCommandQueue(*this, cmd.timestamp, m_last_command_time);
     m_last_command_time = std::max(cmd.timestamp, m_last_command_time);
     switch(cmd.type) {
@@ -32,13 +36,6 @@ void LPDDR6Core::doCommand(const LPDDR6Command& cmd) {
             util::coreHelpers::bankHandlerIdx(cmd, m_ranks, this, &LPDDR6Core::handleWriteAuto);
             break;
         case CmdType::REFDB: {
-            assert(m_ranks.size() > cmd.targetCoordinate.rank);
-            auto& rank = m_ranks.at(cmd.targetCoordinate.rank);
-            assert(rank.banks.size() > cmd.targetCoordinate.bank);
-            assert(rank.banks.size() > cmd.targetCoordinate.dbank);
-            if (cmd.targetCoordinate.bank >= rank.banks.size() || cmd.targetCoordinate.dbank >= rank.banks.size()) {
-                throw std::invalid_argument("Invalid bank target coordinate");
-            }
             auto bank_id1 = cmd.targetCoordinate.bank;
             auto bank_id2 = cmd.targetCoordinate.dbank;
             handleRefDualBanks(cmd.targetCoordinate.rank, bank_id1, bank_id2, cmd.timestamp);
diff --git a/src/DRAMPower/DRAMPower/util/RegisterHelper.h b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
index e5c2d35..4d1a07c 100644
--- a/src/DRAMPower/DRAMPower/util/RegisterHelper.h
+++ b/src/DRAMPower/DRAMPower/util/RegisterHelper.h
@@ -1,6 +1,7 @@
 #ifndef DRAMPOWER_UTIL_REGISTERHELPER_H
 #define DRAMPOWER_UTIL_REGISTERHELPER_H
 
+#include <stdexcept>
 #include <vector>
 
 #include <DRAMPower/command/Command.h>
@@ -9,6 +10,43 @@
 namespace DRAMPower::util {
 
 namespace coreHelpers {
+    // Rejects a command for a rank or bank that doesn't exist
+    // Has to be called before the command has any effect
+    template<typename Command_t = Command>
+    void checkTarget(const Command_t& cmd, const std::vector<Rank>& ranks) {
+        switch (cmd.type) {
+            case CmdType::NOP:
+            case CmdType::END_OF_SIMULATION:
+                // No target
+                return;
+            default:
+                break;
+        }
+        if (cmd.targetCoordinate.rank >= ranks.size()) {
+            throw std::out_of_range("Invalid rank target coordinate");
+        }
+        switch (cmd.type) {
+            case CmdType::ACT:
+            case CmdType::PRE:
+            case CmdType::PRESB:
+            case CmdType::RD:
+            case CmdType::RDA:
+            case CmdType::WR:
+            case CmdType::WRA:
+            case CmdType::REFB:
+            case CmdType::REFP2B:
+            case CmdType::REFDB:
+            case CmdType::REFSB:
+                if (cmd.targetCoordinate.bank >= ranks[cmd.targetCoordinate.rank].banks.size()) {
+                    throw std::out_of_range("Invalid bank target coordinate");
+                }
+                break;
+            default:
+                // The command targets the whole rank
+                break;
+        }
+    }
+
     template<typename Func, typename Owner, typename Command_t = Command>
     decltype(auto) bankHandler(const Command_t& cmd, std::vector<Rank>& ranks, Owner owner, Func &&member_func) {
         assert(ranks.size()>cmd.targetCoordinate.rank);
-- 
2.43.0


From b9f471f3f0602f3193047064787bad02a99ee585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 21/27] fix: Pin::set applied the data rate twice when counting
 up to the new burst

---
 src/DRAMPower/DRAMPower/util/pin.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/util/pin.h b/src/DRAMPower/DRAMPower/util/pin.h
index 1a94e23..35c417e 100644
--- a/src/DRAMPower/DRAMPower/util/pin.h
+++ b/src/DRAMPower/DRAMPower/util/pin.h
@@ -143,7 +143,7 @@ public:
         timestamp_t virtual_load_time  = load_time * dataRate;
 
         // Count stats to virtual_load_time
-        set_internal(virtual_load_time, dataRate, m_pending_stats, m_stats);
+        set_internal(load_time, dataRate, m_pending_stats, m_stats);
         if (m_pending_stats.isPending() && m_pending_stats.getTimestamp() < virtual_load_time) {
             m_pending_stats.clear();
         }
-- 
2.43.0


From 3e488e80068bf7770fda8513296e6dc8b70de136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 22/27] fix: Bus counted switched-off time after being switched
 on again

---
 src/DRAMPower/DRAMPower/util/bus.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/util/bus.h b/src/DRAMPower/DRAMPower/util/bus.h
index 14e1ec3..eba7a24 100644
--- a/src/DRAMPower/DRAMPower/util/bus.h
+++ b/src/DRAMPower/DRAMPower/util/bus.h
@@ -98,7 +98,7 @@ private:
 			stats += diff(this->at(t), this->at(t + 1)); // Last: (virtual_timestamp - 2, virtual_timestamp - 1)
 		}
 		// Burst to idle
-		if (virtual_timestamp > burstStorageEndTime && burstStorageEndTime > 0) {
+		if (virtual_timestamp > burstStorageEndTime && this->burst_storage.size() > 0) {
 			// Burst to idle
 			stats += diff(this->at(burstStorageEndTime - 1), this->at(burstStorageEndTime));
 		}
@@ -119,7 +119,7 @@ private:
 		}
 		advance_stats(virtual_timestamp, stats);
 		// Pattern for pending stats (virtual_timestamp - 1, virtual_timestamp)
-		if(virtual_timestamp > 0)
+		if(virtual_timestamp > this->last_load)
 		{
 			this->last_pattern = this->at(virtual_timestamp - 1);
 		}
@@ -201,6 +201,7 @@ public:
 
 		add_previous_stats(this->virtual_disable_timestamp);
 		// Clear pending stats
+		this->pending_stats.clear();
 		this->burst_storage.clear();
 
 		this->last_load = this->virtual_disable_timestamp;
@@ -215,6 +216,9 @@ public:
 		assert(timestamp * datarate > this->virtual_disable_timestamp);
 		// Shift the counters to the enabled timestamp
 		this->last_load = timestamp * this->datarate;
+		// The bus is idle from here on
+		this->burst_storage.setLoadTime(this->last_load);
+		this->last_pattern = this->idle_pattern_burst;
 		// Add pending stats at enable timestamp
 		this->pending_stats.setPendingStats(this->last_load, idle_stats);
 		this->enableflag = true;
-- 
2.43.0


From f66ef6390acbcbf5905fc3f21d51bcdfc641cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 23/27] fix: inversion pins were read out at twice the clock
 instead of the configured data rate

---
 src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp     | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp | 4 ++--
 src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
index 6b063d0..7bb6238 100644
--- a/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/ddr4/DDR4Interface.cpp
@@ -370,10 +370,10 @@ namespace DRAMPower {
         stats.writeDQSStats = NumDQsPairs * 2u * m_writeDQS.get_stats_at(timestamp);
 
         for (const auto &dbi_pin : m_dbiread) {
-            stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
         for (const auto &dbi_pin : m_dbiwrite) {
-            stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+            stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
         }
     }
 
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
index 1101a35..7a68a23 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr4/LPDDR4Interface.cpp
@@ -260,10 +260,10 @@ void LPDDR4Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.writeDQSStats = 2 * m_writeDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 
     if (m_memSpec.bitWidth == 16) {
diff --git a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
index 7e99a23..11a5e60 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr5/LPDDR5Interface.cpp
@@ -391,10 +391,10 @@ void LPDDR5Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
     stats.readDQSStats = 2.0 * m_readDQS.get_stats_at(timestamp);
 
     for (const auto &dbi_pin : m_dbiread) {
-        stats.readDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.readDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
     for (const auto &dbi_pin : m_dbiwrite) {
-        stats.writeDBI += dbi_pin.get_stats_at(timestamp, 2);
+        stats.writeDBI += dbi_pin.get_stats_at(timestamp, m_memSpec.dataRate);
     }
 }
 
-- 
2.43.0


From f74a48b46670bc5bc1423aaf2685601273bb4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 24/27] fix: PatternHandler lost the previous pattern across a
 checkpoint

Bits defined as LAST_BIT repeat the pattern before. A restored handler
continued from its initial pattern instead.
---
 src/DRAMPower/DRAMPower/util/PatternHandler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/util/PatternHandler.h b/src/DRAMPower/DRAMPower/util/PatternHandler.h
index a08cea0..cf6e48c 100644
--- a/src/DRAMPower/DRAMPower/util/PatternHandler.h
+++ b/src/DRAMPower/DRAMPower/util/PatternHandler.h
@@ -102,9 +102,11 @@ public:
 public:
     void serialize(std::ostream& stream) const override {
         m_encoder.serialize(stream);
+        stream.write(reinterpret_cast<const char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
     void deserialize(std::istream& stream) override {
         m_encoder.deserialize(stream);
+        stream.read(reinterpret_cast<char*>(&m_lastPattern), sizeof(m_lastPattern));
     }
 
 // Private member variables
-- 
2.43.0


From 5f37e3920725f130a324fc0fd2d643b3a8e41ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 25/27] fix: LPDDR6Interface lost whether it is enabled across
 a checkpoint

A disabled interface restored from a checkpoint reported itself as enabled,
and enabling it had no effect.
---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 64a3bd2..65bfac4 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -372,6 +372,7 @@ void LPDDR6Interface::getWindowStats(timestamp_t timestamp, SimulationStats &sta
 
 void LPDDR6Interface::serialize(std::ostream& stream) const {
     stream.write(reinterpret_cast<const char*>(&m_last_command_time), sizeof(m_last_command_time));
+    stream.write(reinterpret_cast<const char*>(&m_enabled), sizeof(m_enabled));
     m_patternHandler.serialize(stream);
     m_commandBus.serialize(stream);
     m_dataBus.serialize(stream);
@@ -384,6 +385,7 @@ void LPDDR6Interface::serialize(std::ostream& stream) const {
 
 void LPDDR6Interface::deserialize(std::istream& stream) {
     stream.read(reinterpret_cast<char*>(&m_last_command_time), sizeof(m_last_command_time));
+    stream.read(reinterpret_cast<char*>(&m_enabled), sizeof(m_enabled));
     m_patternHandler.deserialize(stream);
     m_commandBus.deserialize(stream);
     m_dataBus.deserialize(stream);
-- 
2.43.0


From 0da345fcd407345a0200761781a65934f12a8749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:36 +0000
Subject: [PATCH 26/27] fix: LPDDR6Interface: only shift the DBI word for bits
 that carry DBI

---
 src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
index 65bfac4..19fe8fc 100644
--- a/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
+++ b/src/DRAMPower/DRAMPower/standards/lpddr6/LPDDR6Interface.cpp
@@ -449,7 +449,7 @@ std::tuple<const uint8_t*, std::size_t> LPDDR6Interface::DataFormatter::formatDa
             int mapping = dataBitsPerBurstNoMetaNoDBI * burst24 + dataBitMapping[dataBitIdx]; 
             bool dataBit = (inputData[mapping >> 3] >> (mapping & 7)) & 1;
             bool metaBit = (m_metaData[burst24] >> bitOffset) & 1;
-            bool dbiBit = (dbival >> ((16 * burst24) + bitOffset)) & 1;
+            bool dbiBit = isDbi && ((dbival >> ((16 * burst24) + bitOffset)) & 1);
 
             bool bitValue = (dbiBit && isDbi) || (metaBit && isMeta) || (dataBit && isData);
 
-- 
2.43.0


From 3e6169c6d4ef47c8e07f3d275fd004ff048c9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:36 +0000
Subject: [PATCH 27/27] fix: PatternEncoder: do not take over encoder settings
 the checkpoint does not contain

---
 src/DRAMPower/DRAMPower/command/Pattern.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DRAMPower/DRAMPower/command/Pattern.h b/src/DRAMPower/DRAMPower/command/Pattern.h
index fdd2990..6218067 100644
--- a/src/DRAMPower/DRAMPower/command/Pattern.h
+++ b/src/DRAMPower/DRAMPower/command/Pattern.h
@@ -171,10 +171,11 @@ public:
         stream.read(reinterpret_cast<char*>(&settingsSize), sizeof(settingsSize));
         settings = BasePatternEncoderOverrides<pattern_t>{};
         for (std::size_t i = 0; i < settingsSize; ++i) {
-            pattern_t descriptor;
-            PatternEncoderBitSpec bitSpec;
+            pattern_t descriptor{};
+            PatternEncoderBitSpec bitSpec{};
             stream.read(reinterpret_cast<char*>(&descriptor), sizeof(descriptor));
             stream.read(reinterpret_cast<char*>(&bitSpec), sizeof(bitSpec));
+            if (!stream) break;
             settings.updateSettings({PatternEncoderSettingsEntry<pattern_t>{descriptor, bitSpec}});
         }
     }
-- 
2.43.0

