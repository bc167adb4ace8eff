From a3174047f828af8d1ecae73b12b3e5aff9168d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:17 +0000
Subject: [PATCH 01/56] fix: write MDF 3 conversion parameters as plain doubles

The raw std::variant object (value plus type index) was written to the CC
block, so every parametric or tabular conversion was read back wrong.
---
 mdflib/src/cc3block.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..13a00b9 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,9 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (const auto& par : value_list_) {
+        bytes += WriteNumber(buffer, std::visit(
+            [] (auto value) { return static_cast<double>(value); }, par));
       }
       break;
 
@@ -322,8 +323,9 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (const auto& par : value_list_) {
+        bytes += WriteNumber(buffer, std::visit(
+            [] (auto value) { return static_cast<double>(value); }, par));
       }
       break;
 
-- 
2.43.0


From 44d7a93225cee12b430bb1d8b26eda7359af141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:17 +0000
Subject: [PATCH 02/56] fix: keep the validity of variable length values

Storing the index of a VLSD value always marked the value as valid, so a
value saved as invalid was read back as valid.
---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..98828eb 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From 27b3df6129e1fe66c01e964bcd3dcfe5810ea52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:49 +0000
Subject: [PATCH 03/56] fix: start the measurement state last in
 StartMeasurement

The background thread could save queued samples before their times were
made relative to the start time and before the header start time was set,
as the state was changed first. Samples got absolute times and the file
kept its creation time as start time.
---
 mdflib/src/mdfwriter.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index affbad4..82f17b5 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -277,16 +277,9 @@ bool MdfWriter::InitMeasurement() {
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time;
   stop_time_ = 0;  // Zero indicate not stopped
 
-  // The sample queue actual have absolute time. We have to recalculate the
-  // times to relative times by using the start_time_.
-  RecalculateTimeMaster();
-
-  NotifySample();
-
   // Set the time in the header if this is the first DG block in the file.
   // This gives a better start time than when the file was created.
   if ( auto* header = Header();
@@ -294,19 +287,19 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
     header->StartTime(start_time);
   }
 
+  // The sample queue actual have absolute time. We have to recalculate the
+  // times to relative times by using the start_time_.
+  RecalculateTimeMaster();
+
+  // The background thread starts to save samples when it sees this state, so
+  // it must be set after the header and the queued samples have been updated.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
 void MdfWriter::StartMeasurement(ITimestamp &start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time.GetUtcTimeNs();
   stop_time_ = 0;  // Zero indicate not stopped
-                   
-  // The sample queue actual have absolute time. We have to recalculate the
-  // times to relative times by using the start_time_.
-  RecalculateTimeMaster();
-
-  NotifySample();
 
   // Set the time in the header if this is the first DG block in the file.
   // This gives a better start time than when the file was created.
@@ -315,6 +308,13 @@ void MdfWriter::StartMeasurement(ITimestamp &start_time) {
     header->StartTime(start_time);
   }
 
+  // The sample queue actual have absolute time. We have to recalculate the
+  // times to relative times by using the start_time_.
+  RecalculateTimeMaster();
+
+  // The background thread starts to save samples when it sees this state, so
+  // it must be set after the header and the queued samples have been updated.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
-- 
2.43.0


From 379c3338f0cccb8df8003bab0f3fc2a40a0db048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:57 +0000
Subject: [PATCH 04/56] fix: trim the pre-trigger queue without unsigned
 underflow or order assumptions

When the pre-trigger time was larger than the start time the limit wrapped
around and all samples but the last were dropped. A sample saved after the
start was dropped if an older sample was queued behind it.
---
 mdflib/src/samplequeue.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 867db6f..778d616 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -67,19 +67,16 @@ void SampleQueue::TrimQueue() {
 
   while (queue_.size() > 1) {
 
+    const auto first_time = queue_[0].timestamp;
     const auto next_time = queue_[1].timestamp;
-    const auto last_time = queue_.back().timestamp;
-    if (start_time > 0) {
-      // Measurement started
-      if (next_time >= start_time - pre_trig_time) {
-        break;
-      }
-    } else {
-      // Measurement not started. The queue shall be at least the pre-trig time
-      const auto buffer_time = last_time - next_time;
-      if (buffer_time <= pre_trig_time) {
-        break;
-      }
+    // If the measurement isn't started, the queue shall be at least the
+    // pre-trig time. Note that the samples might not be in time order and that
+    // the times are unsigned.
+    const auto last_time = start_time > 0 ? start_time
+                                          : queue_.back().timestamp;
+    if (first_time + pre_trig_time >= last_time ||
+        next_time + pre_trig_time >= last_time) {
+      break;
     }
     PopSample();
   }
-- 
2.43.0


From eaa8f9403d47e94726c7cc6ca5e1144e621b74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:44 +0000
Subject: [PATCH 05/56] fix: do not use a queued sample after it has been
 removed

PopSample() read the size of the record after it was popped from the queue.
---
 mdflib/src/samplequeue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 778d616..322a53f 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -44,10 +44,8 @@ SampleRecord SampleQueue::GetSample() {
 }
 
 void SampleQueue::PopSample() {
-  const SampleRecord& record = queue_.front();
+  size_ -= queue_.front().SampleSize();
   queue_.pop_front();
-  size_ -= record.SampleSize();
-
 }
 void SampleQueue::Reset() {
   queue_.clear();
-- 
2.43.0


From b927bd3d90917e6b9e3c8ffa828ff79d117d7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:02 +0000
Subject: [PATCH 06/56] fix: make CANopen date values safe to set from several
 threads

localtime() returns a pointer to static storage, so two threads that set
CANopen date values at the same time could mix their values.
---
 mdflib/src/mdfhelper.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 963cf89..6541c78 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -74,17 +74,23 @@ std::vector<uint8_t> MdfHelper::NsToCanOpenDateArray(uint64_t ns_since_1970) {
   const LittleBuffer data(ms_min);
   memcpy(date_array.data(), data.data(), data.size());
 
-  const struct tm *bt = localtime(&system_time);
-  date_array[2] = bt->tm_min;
-  date_array[3] = bt->tm_hour;
-  if (bt->tm_isdst) {
+  // Note that several threads may set channel values at the same time.
+  struct tm bt{};
+#if defined(_WIN32)
+  localtime_s(&bt, &system_time);
+#else
+  localtime_r(&system_time, &bt);
+#endif
+  date_array[2] = bt.tm_min;
+  date_array[3] = bt.tm_hour;
+  if (bt.tm_isdst) {
     date_array[3] |= 0x80;
   }
-  date_array[4] = bt->tm_mday;
-  uint8_t day_in_week = bt->tm_wday == 0 ? 7 : bt->tm_wday;
+  date_array[4] = bt.tm_mday;
+  uint8_t day_in_week = bt.tm_wday == 0 ? 7 : bt.tm_wday;
   date_array[4] |= (day_in_week << 5);
-  date_array[5] = 1 + bt->tm_mon;
-  date_array[6] = bt->tm_year % 100;
+  date_array[5] = 1 + bt.tm_mon;
+  date_array[6] = bt.tm_year % 100;
   return date_array;
 }
 
-- 
2.43.0


From d3cfe1d0c25569d9149e77ec3167ca2d332fdb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:44 +0000
Subject: [PATCH 07/56] fix: lock the sample queue again on every return of
 SaveQueue

Returning unlocked made the background thread unlock a mutex it did not
hold, which ended the process when a session was appended to a file with
compressed data groups.
---
 mdflib/src/convertersamplequeue.cpp | 1 +
 mdflib/src/writer4samplequeue.cpp   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 66a3aa9..e09905d 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -52,6 +52,7 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
 
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
   if (dt4 == nullptr) {
+    lock.lock();
     return;
   }
 
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 2f62f54..6ac5f21 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -54,10 +54,14 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
   }
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
   if (dt4 == nullptr) {
+    writer_.Close();
+    lock.lock();
     return;
   }
   const auto data_position = dt4->DataPosition();
   if (data_position <= 0) {
+    writer_.Close();
+    lock.lock();
     return;
   }
 
-- 
2.43.0


From 07f9f665d46d98195bff159c203b9a2655f6b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:16 +0000
Subject: [PATCH 08/56] fix: do not extend data blocks of earlier measurements

When a session was appended to a file, the DT block of an earlier data group
with an unused channel group was extended to the end of the file even though
nothing was saved in it.
---
 mdflib/src/convertersamplequeue.cpp | 5 +++++
 mdflib/src/writer4samplequeue.cpp   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index e09905d..7a14176 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -33,6 +33,11 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     SaveQueueCompressed(lock);
     return;
   }
+  if (IsEmpty()) {
+    // Nothing to save. Note that the data group may belong to an earlier
+    // measurement and its DT block must not be extended to the end of the file.
+    return;
+  }
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
     return;
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 6ac5f21..ee5b990 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -39,6 +39,12 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     return;
   }
 
+  if (IsEmpty()) {
+    // Nothing to save. Note that the data group may belong to an earlier
+    // measurement and its DT block must not be extended to the end of the file.
+    return;
+  }
+
   // Save uncompressed data in last DG/DT block
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
-- 
2.43.0


From 745cd765e520e223e0428d8af835d9df35578e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:02 +0000
Subject: [PATCH 09/56] fix: report a too short file instead of throwing from
 the reader's constructor

---
 mdflib/src/mdfreader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdfreader.cpp b/mdflib/src/mdfreader.cpp
index 0a6cd1c..6160f6d 100644
--- a/mdflib/src/mdfreader.cpp
+++ b/mdflib/src/mdfreader.cpp
@@ -302,7 +302,14 @@ void MdfReader::VerifyMdfFile() {
   }
 
   auto id_block = std::make_unique<detail::IdBlock>();
-  id_block->Read(*file_);
+  try {
+    id_block->Read(*file_);
+  } catch (const std::exception& err) {
+    MDF_ERROR() << "Failed to read the ID block. Error: " << err.what()
+                << ", File: " << Filename();
+    Close();
+    return;
+  }
 
   if (Platform::strnicmp(id_block->FileId().c_str(), "MDF", 3) == 0 ||
       Platform::strnicmp(id_block->FileId().c_str(), "UnFinMF", 7) == 0) {
-- 
2.43.0


From 13bdc117e0f58355a9d13fd83ed3698c2e3d1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:43 +0000
Subject: [PATCH 10/56] fix: recount the samples of an unfinished file instead
 of adding to them

---
 mdflib/src/cg4block.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index d492ff1..1efa75c 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -401,18 +401,15 @@ ISourceInformation *Cg4Block::SourceInformation() const {
 }
 
 void Cg4Block::UpdateCycleCounter(uint64_t nof_samples) {
-  nof_samples_ += nof_samples;
+  // The samples have been counted from the start of the data block.
+  nof_samples_ = nof_samples;
 }
 
 void Cg4Block::UpdateVlsdSize(uint64_t nof_data_bytes) {
   if (Flags() & CgFlag::VlsdChannel) {
-    uint64_t vlsd_size = nof_invalid_bytes_;
-    vlsd_size <<= 32;
-    vlsd_size += nof_data_bytes_;
-
-    vlsd_size += nof_data_bytes;
-    nof_data_bytes_ = static_cast<uint32_t>(vlsd_size & 0xFFFFFFFF);
-    nof_invalid_bytes_ = static_cast<uint32_t>(vlsd_size >> 32);
+    // The bytes have been counted from the start of the data block.
+    nof_data_bytes_ = static_cast<uint32_t>(nof_data_bytes & 0xFFFFFFFF);
+    nof_invalid_bytes_ = static_cast<uint32_t>(nof_data_bytes >> 32);
   }
 }
 
-- 
2.43.0


From c66b246ca3d35f94c0ef61c6dded34d598e29080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:31 +0000
Subject: [PATCH 11/56] fix: report data that cannot be read instead of
 returning it as valid

---
 mdflib/src/cg3block.cpp  |  6 ++----
 mdflib/src/datablock.cpp |  3 +++
 mdflib/src/dg4block.cpp  | 21 ++++++++++++++++++++-
 mdflib/src/dg4block.h    |  1 +
 mdflib/src/dz4block.cpp  | 14 ++++++++------
 mdflib/src/mdfblock.cpp  |  5 +++++
 mdflib/src/readcache.cpp | 33 ++++++++++++++++++++++++---------
 mdflib/src/readcache.h   |  6 ++++++
 8 files changed, 69 insertions(+), 20 deletions(-)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..289843d 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -257,8 +257,7 @@ uint64_t Cg3Block::ReadDataRecord(std::streambuf& buffer,
   // Normal fixed length records
   std::size_t record_size = size_of_data_record_;
   std::vector<uint8_t> record(record_size, 0);
-  uint64_t count =
-      buffer.sgetn(reinterpret_cast<char *>(record.data()), record.size());
+  const uint64_t count = ReadByte(buffer, record, record_size);
   uint64_t sample = Sample();
   if (sample < NofSamples()) {
     const bool continue_reading = notifier.NotifySampleObservers(sample, RecordId(), record);
@@ -299,8 +298,7 @@ uint64_t Cg3Block::ReadRangeDataRecord(std::streambuf& buffer,
 
     std::vector<uint8_t> record(record_size, 0);
 
-    count = buffer.sgetn(
-        reinterpret_cast<char*>(record.data()), record.size());
+    count = ReadByte(buffer, record, record_size);
 
     if (sample < NofSamples()) {
       const bool continue_reading =
diff --git a/mdflib/src/datablock.cpp b/mdflib/src/datablock.cpp
index 63c4131..f99c218 100644
--- a/mdflib/src/datablock.cpp
+++ b/mdflib/src/datablock.cpp
@@ -51,6 +51,9 @@ uint64_t DataBlock::CopyDataToBuffer(std::streambuf& buffer,
   const uint64_t reads = buffer.sgetn(
       reinterpret_cast<char*>(dest.data()) + buffer_index,
       static_cast<std::streamsize>(data_size));
+  if (reads != data_size) {
+    throw std::runtime_error("End of file detected.");
+  }
   buffer_index += reads;
   return reads;
 }
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..4b96fc4 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -328,6 +328,7 @@ void Dg4Block::ReadData(std::streambuf& buffer) {
   ReadCache read_cache(this, buffer);
   while (read_cache.ParseRecord()) {
   }
+  const bool missing_samples = read_cache.IsError() && IsSamplesMissing();
 
   for (const auto& cg : cg_list_) {
     if (!cg) {
@@ -340,6 +341,15 @@ void Dg4Block::ReadData(std::streambuf& buffer) {
       cn->ClearData();
     }
   }
+  if (missing_samples) {
+    throw std::runtime_error("All samples couldn't be read.");
+  }
+}
+
+bool Dg4Block::IsSamplesMissing() const {
+  return std::any_of(cg_list_.cbegin(), cg_list_.cend(), [] (const auto& cg4) {
+    return cg4 && cg4->Sample() < cg4->NofSamples();
+  });
 }
 
 void Dg4Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
@@ -432,6 +442,7 @@ void Dg4Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
   ReadCache read_cache(this, buffer);
   while (read_cache.ParseRangeRecord(range)) {
   }
+  const bool missing_samples = read_cache.IsError() && IsSamplesMissing();
 
   for (const auto& cg : cg_list_) {
     if (!cg) {
@@ -444,6 +455,9 @@ void Dg4Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
       cn->ClearData();
     }
   }
+  if (missing_samples) {
+    throw std::runtime_error("All samples couldn't be read.");
+  }
 }
 
 void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
@@ -468,6 +482,7 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
   }
   bool read_signal_data = false;  // Traditional SD storage
   bool read_vlsd_cg_data = false; // Newer CG-VLSD data
+  bool error = false;
 
   switch (channel.Type()) {
     case ChannelType::VariableLength:
@@ -505,6 +520,7 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
     } else {
       while (read_cache.ParseSignalData()) { }
     }
+    error = read_cache.IsError();
   } else if (read_vlsd_cg_data) {
     ReadCache read_cache(this, buffer);
     read_cache.SetRecordId(channel.VlsdRecordId());
@@ -513,8 +529,11 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
 
     while (read_cache.ParseVlsdCgData()) {
     }
+    error = read_cache.IsError();
+  }
+  if (error) {
+    throw std::runtime_error("All VLSD data couldn't be read.");
   }
-
 }
 
 void Dg4Block::ParseDataRecords(std::streambuf& buffer, uint64_t nof_data_bytes) const {
diff --git a/mdflib/src/dg4block.h b/mdflib/src/dg4block.h
index de40bd7..6c4755a 100644
--- a/mdflib/src/dg4block.h
+++ b/mdflib/src/dg4block.h
@@ -69,6 +69,7 @@ class Dg4Block : public DataListBlock, public IDataGroup {
   Cg4List cg_list_;
 
   void ParseDataRecords(std::streambuf& buffer, uint64_t nof_data_bytes) const;
+  [[nodiscard]] bool IsSamplesMissing() const;
   uint64_t ReadRecordId(std::streambuf& buffer, uint64_t& record_id) const;
 
   void UpdateVlsdChannel(std::streambuf& buffer, const Cg4Block& cg4) const;
diff --git a/mdflib/src/dz4block.cpp b/mdflib/src/dz4block.cpp
index 19a87af..519a7ee 100644
--- a/mdflib/src/dz4block.cpp
+++ b/mdflib/src/dz4block.cpp
@@ -125,10 +125,11 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
   switch (static_cast<Dz4ZipType>(type_)) {
     case Dz4ZipType::Deflate: {
       ByteArray temp(static_cast<size_t>(data_length_), 0);
-      from_file.sgetn( reinterpret_cast<char*>(temp.data()),
-                              static_cast<std::streamsize>(temp.size()) );
+      ReadByte(from_file, temp, data_length_);
       ByteArray out(static_cast<size_t>(orig_data_length_), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Failed to decompress the data block.");
+      }
       count = orig_data_length_;
       memcpy(dest.data() + buffer_index, out.data(), static_cast<size_t>(count) );
       buffer_index += count;
@@ -137,10 +138,11 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
 
     case Dz4ZipType::TransposeAndDeflate: {
       ByteArray temp(static_cast<size_t>(data_length_), 0);
-      from_file.sgetn(reinterpret_cast<char*>(temp.data()),
-                      static_cast<std::streamsize>(temp.size()) );
+      ReadByte(from_file, temp, data_length_);
       ByteArray out(static_cast<size_t>( orig_data_length_ ), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Failed to decompress the data block.");
+      }
       InvTranspose(out, parameter_);
 
       count = orig_data_length_;
diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index b4f086f..1447b5c 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -232,6 +232,11 @@ uint64_t ReadStr(std::streambuf& buffer, std::string &dest, uint64_t size) {
   uint64_t ii;
   for (ii = 0; ii < size; ++ii) {
     const int input = buffer.sbumpc();
+    if (input == std::streambuf::traits_type::eof()) {
+      // The text is cut off by the end of the file. Use what is left of it.
+      ii = size;
+      break;
+    }
     if (input == '\0') {
       ++ii;
       break;
diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..6b03819 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -110,9 +110,11 @@ bool ReadCache::ParseRecord() {
     }
   } catch (const std::exception &err) {
     MDF_ERROR() << "Parse of record failed. Error: " << err.what();
+    error_ = true;
     return false;
   } catch (...) {
     MDF_ERROR() << "Parse of record failed.";
+    error_ = true;
     return false;
   }
 
@@ -205,6 +207,7 @@ bool ReadCache::ParseRangeRecord(DgRange& range) {
       }
     }
   } catch (const std::exception &) {
+    error_ = true;
     return false;
   }
   if (continue_reading) {
@@ -241,6 +244,7 @@ bool ReadCache::ParseSignalData() {
         offset_ += 4 + length.value();
       }
     } catch (const std::exception &) {
+      error_ = true;
       return false;
     }
     if (!skip) {
@@ -288,6 +292,7 @@ bool ReadCache::ParseSignalDataOffset(uint64_t offset) {
     offset_ += 4 + length.value();
   } catch (std::exception &err) {
     MDF_ERROR() << "Allocation error. Error: " << err.what();
+    error_ = true;
     return false;
   }
 
@@ -341,6 +346,7 @@ bool ReadCache::ParseVlsdCgData() {
         skip = true;
       }
     } catch (const std::exception &) {
+      error_ = true;
       return false;
     }
     if (!skip) {
@@ -351,11 +357,22 @@ bool ReadCache::ParseVlsdCgData() {
   return data_count_ <= max_data_count_;
 }
 
+bool ReadCache::ReadByteFromFile(uint8_t &input) {
+  const int byte = buffer_.sbumpc();
+  if (byte == std::streambuf::traits_type::eof()) {
+    return false;
+  }
+  input = static_cast<uint8_t>(byte);
+  return true;
+}
+
 bool ReadCache::GetNextByte(uint8_t &input) {
   if ( file_index_ < data_size_) {
     if (file_buffer_.empty()) {
       // Read direct from the file
-     input = buffer_.sbumpc();
+      if (!ReadByteFromFile(input)) {
+        return false;
+      }
     } else {
       // Read from buffer in case of DZ block
       input = file_buffer_[file_index_];
@@ -396,7 +413,9 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return false;
   }
   if (file_buffer_.empty()) {
-    input = buffer_.sbumpc();
+    if (!ReadByteFromFile(input)) {
+      return false;
+    }
   } else {
     input = file_buffer_[file_index_];
   }
@@ -509,13 +528,9 @@ void ReadCache::SkipBytes(size_t nof_skip) {
     }
     // In right block. Set up the file buffer.
     if (current_block->BlockType() == "DZ") {
-      try {
-        file_buffer_.resize(static_cast<size_t>(data_size_) );
-        uint64_t temp_index = 0;
-        current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-      } catch (const std::exception&) {
-        break;;
-      }
+      file_buffer_.resize(static_cast<size_t>(data_size_) );
+      uint64_t temp_index = 0;
+      current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
     } else {
       file_buffer_.clear();
       SetFilePosition(buffer_, current_block->DataPosition());
diff --git a/mdflib/src/readcache.h b/mdflib/src/readcache.h
index 381a8b1..fd0384f 100644
--- a/mdflib/src/readcache.h
+++ b/mdflib/src/readcache.h
@@ -45,6 +45,9 @@ class ReadCache {
    */
   bool ParseSignalDataOffset(uint64_t offset);
 
+  /** \brief Returns true if the data couldn't be read or parsed to its end. */
+  [[nodiscard]] bool IsError() const { return error_; }
+
   void SetRecordId(uint64_t record_id) {
     record_id_list_.clear();
     record_id_list_.insert(record_id);
@@ -76,11 +79,14 @@ class ReadCache {
   std::set<uint64_t> record_id_list_;
   std::map<uint64_t, const Cg4Block*> available_cg_list_;
 
+  bool error_ = false; ///< Set if the data couldn't be read or parsed
+
   uint64_t offset_ = 0;
   std::set<uint64_t> offset_filter_;
   std::function<void(uint64_t, const std::vector<uint8_t>&)> callback_;
 
   uint64_t ParseRecordId();
+  bool ReadByteFromFile(uint8_t& input);
   bool GetNextByte(uint8_t& input);
   void GetArray(std::vector<uint8_t>& buffer);
   void SkipBytes(size_t nof_skip);
-- 
2.43.0


From 8977a5e6152bf3b13b85664f95aa7bf17efe5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:39 +0000
Subject: [PATCH 12/56] fix: report a failed write of an MDF 3 file

---
 mdflib/src/mdf3file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/mdf3file.cpp b/mdflib/src/mdf3file.cpp
index 2b486e5..d251d9c 100644
--- a/mdflib/src/mdf3file.cpp
+++ b/mdflib/src/mdf3file.cpp
@@ -117,6 +117,7 @@ bool Mdf3File::Write(std::streambuf& buffer) {
     hd_block_->Write(buffer);
   } catch (const std::exception &err) {
     MDF_ERROR() << "Failed to write MDF3 file. Error: " << err.what();
+    return false;
   }
   return true;
 }
-- 
2.43.0


From 73e26abfa9a2c133be6aefee87062f5cfc9c9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:12 +0000
Subject: [PATCH 13/56] fix: report and survive failed writes

---
 include/mdf/mdfwriter.h     |  4 +++
 mdflib/src/mdfconverter.cpp | 11 ++++++---
 mdflib/src/mdfwriter.cpp    | 49 +++++++++++++++++++++++++++++++++----
 mdflib/src/samplequeue.h    |  4 +--
 mdflib/src/writecache.cpp   | 19 +++++++++++++-
 5 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/include/mdf/mdfwriter.h b/include/mdf/mdfwriter.h
index 6ae89b2..e9ae5a8 100644
--- a/include/mdf/mdfwriter.h
+++ b/include/mdf/mdfwriter.h
@@ -48,6 +48,7 @@ class IFlexRayEvent;
 
 namespace detail {
 class SampleQueue;
+class WriteCache;
 class Writer4SampleQueue;
 class ConverterSampleQueue;
 }
@@ -94,6 +95,7 @@ class ConverterSampleQueue;
  */
 class MdfWriter {
   friend class detail::SampleQueue;
+  friend class detail::WriteCache;
   friend class detail::Writer4SampleQueue;
   friend class detail::ConverterSampleQueue;
  public:
@@ -412,6 +414,8 @@ class MdfWriter {
   std::atomic<uint64_t> stop_time_ = 0;      ///< Nanoseconds since 1970.
   std::atomic<WriteState> write_state_ =
       WriteState::Create;  ///< Keeps track of the worker thread state.
+  /// True if something couldn't be written since the last call to Init().
+  std::atomic<bool> write_failed_ = false;
 
   MdfWriter() = default; ///< Default constructor.
 
diff --git a/mdflib/src/mdfconverter.cpp b/mdflib/src/mdfconverter.cpp
index d89ccba..f1368b9 100644
--- a/mdflib/src/mdfconverter.cpp
+++ b/mdflib/src/mdfconverter.cpp
@@ -71,7 +71,7 @@ bool MdfConverter::InitMeasurement() {
   // Start the working thread that handles the samples
   write_state_ = WriteState::Init;  // Waits for new samples
   write_cache_.Init();
-  return write;
+  return write && !write_failed_;
 }
 
 bool MdfConverter::FinalizeMeasurement() {
@@ -90,11 +90,16 @@ bool MdfConverter::FinalizeMeasurement() {
     return false;
   }
   const bool write = mdf_file_ && mdf_file_->Write(*file_);
-  const bool signal_data = WriteSignalData(*file_);
+  bool signal_data = false;
+  try {
+    signal_data = WriteSignalData(*file_);
+  } catch (const std::exception& err) {
+    MDF_ERROR() << "Failed to write the signal data. Error: " << err.what();
+  }
   Close();
 
   write_state_ = WriteState::Finalize;
-  return write && signal_data;
+  return write && signal_data && !write_failed_;
 }
 
 
diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 82f17b5..fad6f63 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -82,6 +82,32 @@ mdf::IChannel* CreateBitChannel(mdf::IChannel& parent,
   return frame_bit;
 }
 
+/** \brief File buffer that remembers if any write to the file failed. */
+class OutputFileBuffer : public std::filebuf {
+ public:
+  [[nodiscard]] bool WriteFailed() const { return write_failed_; }
+
+ protected:
+  int_type overflow(int_type c) override {
+    const auto ret = std::filebuf::overflow(c);
+    if (traits_type::eq_int_type(ret, traits_type::eof())) {
+      write_failed_ = true;
+    }
+    return ret;
+  }
+
+  std::streamsize xsputn(const char_type* s, std::streamsize n) override {
+    const auto ret = std::filebuf::xsputn(s, n);
+    if (ret != n) {
+      write_failed_ = true;
+    }
+    return ret;
+  }
+
+ private:
+  bool write_failed_ = false;
+};
+
 }  // namespace
 
 namespace mdf {
@@ -156,7 +182,13 @@ void MdfWriter::Close() {
   try {
     auto* file = dynamic_cast<std::filebuf*>(buffer);
     if (file != nullptr && file->is_open()) {
-      file->close();
+      // The last bytes are written to the file when it is closed.
+      const bool closed = file->close() != nullptr;
+      const auto* output = dynamic_cast<const OutputFileBuffer*>(file);
+      if (!closed || (output != nullptr && output->WriteFailed())) {
+        MDF_ERROR() << "Failed to write to the file. File: " << Filename();
+        write_failed_ = true;
+      }
     } else if (file == nullptr) {
       buffer->pubsync();
     }
@@ -177,7 +209,8 @@ bool MdfWriter::Init(const std::wstring& filename) {
   if (mdf_file_) {
     mdf_file_->FileName(Filename());
   }
-  file_ = std::make_shared<std::filebuf>();
+  file_ = std::make_shared<OutputFileBuffer>();
+  write_failed_ = false;
   if (!file_) {
     MDF_ERROR() << "Failed to create a file buffer. Internal error.";
     return false;
@@ -230,6 +263,7 @@ bool MdfWriter::Init(const std::shared_ptr<std::streambuf>& buffer) {
   try {
     CreateMdfFile();
     file_ = buffer;
+    write_failed_ = false;
     write_state_ = WriteState::Create;
   } catch (const std::exception& err) {
     MDF_ERROR() << "Failed to create a file buffer. Internal error. Error: "
@@ -273,7 +307,7 @@ bool MdfWriter::InitMeasurement() {
   // Start the working thread that handles the samples
   write_state_ = WriteState::Init;  // Waits for new samples
   InitWriteCache();
-  return write;
+  return write && !write_failed_;
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
@@ -345,10 +379,15 @@ bool MdfWriter::FinalizeMeasurement() {
     return false;
   }
   const bool write = mdf_file_ && mdf_file_->Write(*file_);
-  const bool signal_data = WriteSignalData(*file_);
+  bool signal_data = false;
+  try {
+    signal_data = WriteSignalData(*file_);
+  } catch (const std::exception& err) {
+    MDF_ERROR() << "Failed to write the signal data. Error: " << err.what();
+  }
   Close();
   write_state_ = WriteState::Finalize;
-  return write && signal_data;
+  return write && signal_data && !write_failed_;
 }
 
 IChannel* MdfWriter::CreateChannel(IChannelGroup* parent) {
diff --git a/mdflib/src/samplequeue.h b/mdflib/src/samplequeue.h
index d24b959..874b95a 100644
--- a/mdflib/src/samplequeue.h
+++ b/mdflib/src/samplequeue.h
@@ -29,6 +29,8 @@ class SampleQueue {
 
   virtual void TrimQueue(); ///< Trims the sample queue.
 
+  [[nodiscard]] bool IsEmpty() const;
+
   void NofDgBlocks(size_t nof_dg_blocks) { nof_dg_blocks_ = nof_dg_blocks;}
   [[nodiscard]] size_t NofDgBlocks() const {return nof_dg_blocks_;}
 
@@ -62,8 +64,6 @@ class SampleQueue {
   [[nodiscard]] bool IsOpen() const;
   void Close();
 
-  [[nodiscard]] bool IsEmpty() const;;
-
   void AddSample(SampleRecord&& record);
 
   void PushSample(const SampleRecord& record) ;
diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index efe4b8b..3419ce3 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -136,14 +136,31 @@ void WriteCache::WorkThread() {
     }
     catch (...) {
       MDF_ERROR() << "Failed to save queue";
+      writer_.write_failed_ = true;
+      if (!lock.owns_lock()) {
+        lock.lock();
+      }
     }}
 
   } while (!stop_thread_);
   {
     std::unique_lock lock(locker_);
     for (auto& [channel_group, sample_queue] : cache_) {
-      if (sample_queue) {
+      if (!sample_queue) {
+        continue;
+      }
+      try {
         sample_queue->CleanQueue(lock);
+      } catch (...) {
+        MDF_ERROR() << "Failed to save queue";
+        writer_.write_failed_ = true;
+        if (!lock.owns_lock()) {
+          lock.lock();
+        }
+      }
+      if (!sample_queue->IsEmpty()) {
+        // The file couldn't be opened, so the samples are lost.
+        writer_.write_failed_ = true;
       }
     }
   }
-- 
2.43.0


From decb295d90542bcbb3076dbcc9bd6a8af81eb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:09 +0000
Subject: [PATCH 14/56] fix: stop the background thread before the writer gets
 another file

---
 mdflib/src/mdfwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index fad6f63..98a240a 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -204,6 +204,7 @@ std::string MdfWriter::Filename() const {
 
 bool MdfWriter::Init(const std::wstring& filename) {
   bool init = false;
+  ExitWriteCache();  // The background thread uses the current file
   CreateMdfFile();
   filename_ = filename;
   if (mdf_file_) {
@@ -261,6 +262,7 @@ bool MdfWriter::Init(const std::string& filename) {
 bool MdfWriter::Init(const std::shared_ptr<std::streambuf>& buffer) {
   bool init = true;
   try {
+    ExitWriteCache();  // The background thread uses the current file
     CreateMdfFile();
     file_ = buffer;
     write_failed_ = false;
-- 
2.43.0


From c227f3de4c80732fcee40992aa758ae6aec5976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:02 +0000
Subject: [PATCH 15/56] fix: do not miss the notification that stops the
 background thread

---
 mdflib/src/writecache.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index 3419ce3..ab1fc19 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -91,7 +91,12 @@ void WriteCache::Exit() {
 }
 
 void WriteCache::StopWorkThread() {
-  stop_thread_ = true;
+  {
+    // The lock prevents that the thread misses the notification between its
+    // check of the flag and its wait.
+    std::lock_guard lock(locker_);
+    stop_thread_ = true;
+  }
   if (work_thread_.joinable()) {
     sample_event_.notify_one();
     work_thread_.join();
-- 
2.43.0


From c6ef659b19b477814066bd65704fae195ba8b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 16/56] fix: stop the background thread in FinalizeMeasurement
 as documented

---
 mdflib/src/mdfwriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 98a240a..82d6c9c 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -366,6 +366,7 @@ void MdfWriter::StopMeasurement(ITimestamp& start_time) {
 }
 
 bool MdfWriter::FinalizeMeasurement() {
+  ExitWriteCache();  // In case StopMeasurement() wasn't called
 
   // Save outstanding non-written blocks and any block updates as
   // sample counters which changes during DG/DT updates
-- 
2.43.0


From c162708b016c5b61f17ae22d406d22b21ec02249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:42 +0000
Subject: [PATCH 17/56] fix: deliver the last sample of a range read

ReadPartialData documents max_sample as the last sample to read, but the
sample was skipped.
---
 mdflib/src/cg3block.cpp  | 4 ++--
 mdflib/src/readcache.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 289843d..96e9da0 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -284,13 +284,13 @@ uint64_t Cg3Block::ReadRangeDataRecord(std::streambuf& buffer,
 
   if (!cg_range->IsUsed() ||
       next_sample < range.MinSample() ||
-      next_sample > range.MaxSample()) {
+      sample > range.MaxSample()) {
     count = StepFilePosition(buffer, record_size);
 
     if (sample < NofSamples()) {
       IncrementSample();
     }
-    if (next_sample > range.MaxSample()) {
+    if (sample > range.MaxSample()) {
       cg_range->IsUsed(false);
     }
   } else {
diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 6b03819..51176c7 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -149,13 +149,13 @@ bool ReadCache::ParseRangeRecord(DgRange& range) {
       const LittleBuffer<uint32_t> length(temp, 0);
       if (!cg_range->IsUsed() ||
           next_sample < range.MinSample() ||
-          next_sample > range.MaxSample() ) {
+          sample > range.MaxSample() ) {
         // Skip this sample
         SkipBytes(length.value());
         if (sample < channel_group->NofSamples()) {
           channel_group->IncrementSample();
         }
-        if (next_sample > range.MaxSample()) {
+        if (sample > range.MaxSample()) {
           // Mark this group as read
           cg_range->IsUsed(false);
         }
@@ -180,13 +180,13 @@ bool ReadCache::ParseRangeRecord(DgRange& range) {
       // Normal fixed length records
       if (!cg_range->IsUsed() ||
           next_sample < range.MinSample() ||
-          next_sample > range.MaxSample() ) {
+          sample > range.MaxSample() ) {
         // Skip this sample
         SkipBytes(record_size);
         if (sample < channel_group->NofSamples()) {
           channel_group->IncrementSample();
         }
-        if (next_sample > range.MaxSample()) {
+        if (sample > range.MaxSample()) {
           // Mark this group as read
           cg_range->IsUsed(false);
         }
-- 
2.43.0


From 286f2a60bb423b0dc6d45341f4adf1ee57d46d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:42 +0000
Subject: [PATCH 18/56] fix: keep the validity of variable length values when
 only offsets are read

---
 include/mdf/ichannel.h       | 8 ++++----
 mdflib/src/channelobserver.h | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mdf/ichannel.h b/include/mdf/ichannel.h
index 86b10d7..b5d83d6 100644
--- a/include/mdf/ichannel.h
+++ b/include/mdf/ichannel.h
@@ -570,6 +570,10 @@ class IChannel : public IBlock  {
   virtual void CopyFrom(const IChannel& source) = 0;
   virtual void CopyConfigFrom(const IChannel& source) = 0;
 
+  /** \brief Support function that return true if the valid bit is set.*/
+  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
+                        uint64_t array_index) const;
+
  protected:
 
 
@@ -600,10 +604,6 @@ class IChannel : public IBlock  {
   /** \brief Support function that sets the valid flag. */
   virtual void SetValid(bool valid, uint64_t array_index);
 
-  /** \brief Support function that return true if the valid bit is set.*/
-  virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
-                        uint64_t array_index) const;
-
   /** \brief Support function that sets unsigned little endian values */
   void SetUnsignedValueLe(uint64_t value, bool valid, uint64_t array_index);
   /** \brief Support function that sets unsigned big endian values */
diff --git a/mdflib/src/channelobserver.h b/mdflib/src/channelobserver.h
index a84ae7c..7ac8f64 100644
--- a/mdflib/src/channelobserver.h
+++ b/mdflib/src/channelobserver.h
@@ -107,7 +107,8 @@ class ChannelObserver : public IChannelObserver {
           // If variable length, the value is an index into an SD block.
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             uint64_t offset = 0; // Offset into SD/CG block
-            valid = channel_.GetUnsignedValue(record, offset, array_index);
+            valid = channel_.GetUnsignedValue(record, offset, array_index) &&
+                    channel_.GetValid(record, array_index);
 
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
             if (sample_index < offset_list_.size()) {
-- 
2.43.0


From 1c33e85992d47ff2a8ea8d180dd7631129abd6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:58 +0000
Subject: [PATCH 19/56] fix: compress data blocks that do not get smaller

The output buffer had room for the input plus 100 bytes only. Larger blocks
of data that cannot be compressed were cut off without an error.
---
 mdflib/src/zlibutil.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 0f9e4b3..a0aadbc 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -122,6 +122,13 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
     return false;
   }
 
+  // Data that cannot be compressed needs more bytes than the input.
+  const auto max_size =
+      static_cast<size_t>(deflateBound(&s, static_cast<uLong>(buf_in.size())));
+  if (buf_out.size() < max_size) {
+    buf_out.resize(max_size, 0);
+  }
+
   s.avail_in = static_cast<uInt>(buf_in.size());
   s.next_in = const_cast<Bytef*>(buf_in.data());
 
-- 
2.43.0


From c8e596dad644aa591b960c4dcaae98744b67ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:27 +0000
Subject: [PATCH 20/56] fix: fetch variable length values from compressed block
 lists

ReadVlsdData returned nothing, with success, when the signal data was stored
as a list of compressed blocks.
---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 4b96fc4..d85f500 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -498,6 +498,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From 41c875cea755d10bfcdd90946449a894a6636b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:56 +0000
Subject: [PATCH 21/56] fix: read the size of the sample queue while it is
 locked

---
 mdflib/src/convertersamplequeue.cpp | 3 ++-
 mdflib/src/writer4samplequeue.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 7a14176..9a0f4e0 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -191,6 +191,7 @@ void ConverterSampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lo
   while (!IsEmpty()) {
     SampleRecord sample = GetSample();
 
+    const auto queue_size = QueueSize(); // Other threads may change it below
     lock.unlock(); // Need to unlock the sample queue while file operation
 
     size_t max_index = sample.record_buffer.size()
@@ -206,7 +207,7 @@ void ConverterSampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lo
       // DZ block and put the remaining samples there. If not we can break
       // here and assume that the next cyclic call will handle the next DZ
       // block.
-      if (finalize || QueueSize() > buffer_max) {
+      if (finalize || queue_size > buffer_max) {
         // Purge the buffer to a DZ block and add it to the last DL block
         auto dz4 = std::make_unique<Dz4Block>();
         dz4->OrigBlockType("DT");
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index ee5b990..63d183e 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -216,6 +216,7 @@ void Writer4SampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lock
       // No more data.
       break;
     }
+    const auto queue_size = QueueSize(); // Other threads may change it below
     lock.unlock(); // Need to unlock the sample queue while file operation
 
     size_t max_index = sample.record_buffer.size()
@@ -231,7 +232,7 @@ void Writer4SampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lock
       // DZ block and put the remaining samples there. If not we can break
       // here and assume that the next cyclic call will handle the next DZ
       // block.
-      if (finalize || QueueSize() > buffer_max) {
+      if (finalize || queue_size > buffer_max) {
         // Purge the buffer to a DZ block and add it to the last DL block
         auto dz4 = std::make_unique<Dz4Block>();
         dz4->Init(*dl4);
-- 
2.43.0


From d857b3871968f060fa304602365b1948ef9ffb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:33 +0000
Subject: [PATCH 22/56] fix: describe LIN bus channels where the messages are
 stored

---
 mdflib/src/linconfigadapter.cpp | 16 ++++++++--------
 mdflib/src/linmessage.cpp       |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..5e41f15 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -123,7 +123,7 @@ void LinConfigAdapter::CreateFrameChannels(IChannelGroup& group) const {
   }
   CreateBusChannel(*cn_frame);
   CreateBitsChannel(*cn_frame, "LIN_Frame.ID", 9, 0, 6);
-  CreateBitChannel(*cn_frame, "LIN_Frame.Dir", 9, 7);
+  CreateBitChannel(*cn_frame, "LIN_Frame.Dir", 9, 6);
 
   if (IChannel* count = CreateBitsChannel(*cn_frame,"LIN_Frame.ReceivedDataByteCount", 10, 0, 4);
     count != nullptr) {
@@ -206,7 +206,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   CreateBusChannel(*cn_frame);
   CreateBitsChannel(*cn_frame, "LIN_ChecksumError.ID", 9, 0, 6);
 
-  CreateBitChannel(*cn_frame, "LIN_ChecksumError.Dir", 9, 7);
+  CreateBitChannel(*cn_frame, "LIN_ChecksumError.Dir", 9, 6);
 
   if (mandatory_only) {
     return;
@@ -222,7 +222,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   }
 
   if (IChannel* frame_bytes =
-          cn_frame->CreateChannelComposition("LIN_ChecksumError..DataBytes");
+          cn_frame->CreateChannelComposition("LIN_ChecksumError.DataBytes");
       frame_bytes != nullptr) {
     frame_bytes->Type(ChannelType::MaxLength);
     frame_bytes->BitCount(64);
@@ -239,7 +239,7 @@ const bool mandatory_only = MandatoryMembersOnly();
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError..SOF", 21, 0, 64);
+  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError.SOF", 21, 0, 64);
       sof != nullptr) {
      sof->Unit("ns");
   }
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
@@ -408,7 +408,7 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
@@ -431,7 +431,7 @@ void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) con
     CreateSourceInformation(*cn_frame);
   }
   CreateBusChannel(*cn_frame);
-  CreateBitsChannel(*cn_frame,"LIN_Transmission.ID", 9, 0, 6);
+  CreateBitsChannel(*cn_frame,"LIN_TransmissionError.ID", 9, 0, 6);
 
   if (mandatory) {
     return;
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..bc6eba9 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From c2148c21228625c827285c1bbbe3caf63f3c2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:33 +0000
Subject: [PATCH 23/56] fix: store the FlexRay channel and the payload index
 where they are read

---
 mdflib/src/flexrayconfigadapter.cpp | 12 ++++++------
 mdflib/src/flexraymessage.cpp       | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/mdflib/src/flexrayconfigadapter.cpp b/mdflib/src/flexrayconfigadapter.cpp
index cf6cbf8..367edb2 100644
--- a/mdflib/src/flexrayconfigadapter.cpp
+++ b/mdflib/src/flexrayconfigadapter.cpp
@@ -192,9 +192,9 @@ void FlexRayConfigAdapter::CreateFrameChannel(IChannelGroup& channel_group) cons
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -245,7 +245,7 @@ void FlexRayConfigAdapter::CreatePduChannel(IChannelGroup& channel_group) const
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
     parent_frame->DataBytes(28-8);
   }
@@ -294,7 +294,7 @@ void FlexRayConfigAdapter::CreateFrameHeaderChannel(IChannelGroup& channel_group
   if (mandatory_members_only) {
     parent_frame->DataBytes(13-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -347,7 +347,7 @@ void FlexRayConfigAdapter::CreateNullFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -399,7 +399,7 @@ void FlexRayConfigAdapter::CreateErrorFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(35-8);
+    parent_frame->DataBytes(33-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..fe638f5 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -43,7 +43,7 @@ const std::vector<uint8_t>& FlexRayFrame::DataBytes() const {
 void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                      data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 34;
+  const size_t record_size = mandatory_members_only ? 22 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -95,7 +95,7 @@ const std::vector<uint8_t>& FlexRayPdu::DataBytes() const {
 void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                    data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 28;
+  const size_t record_size = mandatory_members_only ? 22 : 28;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -144,7 +144,7 @@ const std::vector<uint8_t>& FlexRayFrameHeader::FillDataBytes() const {
 void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                       data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 13 : 34;
+  const size_t record_size = mandatory_members_only ? 13 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -191,7 +191,7 @@ FlexRayNullFrame::FlexRayNullFrame()
 void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 34;
+  const size_t record_size = mandatory_members_only ? 12 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -238,7 +238,7 @@ FlexRayErrorFrame::FlexRayErrorFrame()
 void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 35;
+  const size_t record_size = mandatory_members_only ? 12 : 33;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
-- 
2.43.0


From 88dc08fd9a30a7c67231975767c684bb0722f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:33 +0000
Subject: [PATCH 24/56] fix: return all the members of a CAN message from the
 bus observer

---
 mdflib/src/canbusobserver.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index f33b6ce..05450e9 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -80,12 +80,13 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   edl_channel_ = GetChannel("EDL");
   brs_channel_ = GetChannel("BRS");
   esi_channel_ = GetChannel("ESI");
-  r0_channel_ = GetChannel("RO");
+  r0_channel_ = GetChannel("R0");
   r1_channel_ = GetChannel("R1");
   wake_up_channel_ = GetChannel("WakeUp");
   single_wire_channel_ = GetChannel("SingleWire");
   frame_duration_channel_ = GetChannel("FrameDuration");
   bit_position_channel_ = GetChannel("BitPosition");
+  error_type_channel_ = GetChannel("ErrorType");
 }
 
 std::string CanBusObserver::Name() const {
@@ -249,6 +250,7 @@ bool CanBusObserver::FireCallback() {
   }
   const uint64_t sample = last_sample_.sample;
   CanMessage msg;
+  msg.TypeOfMessage(message_type_);
   ParseCanMessage(msg);
 
   return OnCanMessage(sample, msg);
@@ -298,12 +300,6 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     msg.ExtendedId(extended);
   }
 
-  if (dlc_channel_ != nullptr) {
-    uint8_t dlc = 0;
-    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
-    msg.Dlc(dlc);
-  }
-
   if (length_channel_ != nullptr) {
     double length = 0.0;
     GetEngValue(*length_channel_, current_sample_index_, record, length);
@@ -340,6 +336,13 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     }
   }
 
+  if (dlc_channel_ != nullptr) {
+    // The data length functions above calculate a DLC. Use the stored value.
+    uint8_t dlc = 0;
+    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
+    msg.Dlc(dlc);
+  }
+
   if (dir_channel_ != nullptr) {
     // Note that eng value is a enumerate string
     bool direction = false;
@@ -411,7 +414,7 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
   if (bit_position_channel_ != nullptr) {
     double position = 0.0;
     GetEngValue(*bit_position_channel_, current_sample_index_, record, position);
-    msg.FrameDuration(static_cast<uint16_t>(position));
+    msg.BitPosition(static_cast<uint16_t>(position));
    }
 
    if (error_type_channel_ != nullptr) {
-- 
2.43.0


From 707ab996c37be4efac118845950c2c5e5b535bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:44 +0000
Subject: [PATCH 25/56] fix: size the CAN payload channels as the messages are
 stored

The CAN adapter raises the maximum payload length to 8 bytes for MLSD
storage and the messages are stored with that length, but the channels
were described with the length of the writer. A file with a shorter
length couldn't be read.
---
 mdflib/src/canconfigadapter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/canconfigadapter.cpp b/mdflib/src/canconfigadapter.cpp
index 690d421..7a10d6b 100644
--- a/mdflib/src/canconfigadapter.cpp
+++ b/mdflib/src/canconfigadapter.cpp
@@ -126,8 +126,8 @@ void CanConfigAdapter::CreateCanDataFrameChannel(IChannelGroup& group) const {
   switch (StorageType()) {
     // In reality,  MLSD storage should have max length equal to 8.
     case MdfStorageType::MlsdStorage:
-      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + writer_.MaxLength() :
-                                (32 - 16) + writer_.MaxLength());
+      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + MaxLength() :
+                                (32 - 16) + MaxLength());
       break;
 
     case MdfStorageType::FixedLengthStorage:
@@ -225,7 +225,7 @@ void CanConfigAdapter::CreateCanErrorFrameChannel(IChannelGroup& group) const {
   cn_error_frame->DataType(ChannelDataType::ByteArray);
 
   if (StorageType() == MdfStorageType::MlsdStorage) {
-    cn_error_frame->DataBytes((34 - 16) + writer_.MaxLength());
+    cn_error_frame->DataBytes((34 - 16) + MaxLength());
   } else {
     cn_error_frame->DataBytes(34 - 8); // Index into SD or VLSD
   }
@@ -290,7 +290,7 @@ IChannel* CanConfigAdapter::CreateDataBytesChannel(IChannel& parent_channel,
     switch(StorageType()) {
       case MdfStorageType::MlsdStorage:
         frame_bytes->Type(ChannelType::MaxLength);
-        frame_bytes->BitCount(8 * writer_.MaxLength());
+        frame_bytes->BitCount(8 * MaxLength());
         break;
 
       case MdfStorageType::VlsdStorage:
-- 
2.43.0


From 18a24e932fe781a110d2fb763a3461c2985b8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:44 +0000
Subject: [PATCH 26/56] fix: count the skipped bytes of every data block

When skipped bytes continue in the next data block, only the bytes of the
last block were counted as read. The reader then expected more data than
the file has and the reading failed.
---
 mdflib/src/readcache.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 51176c7..5a04e7d 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -510,6 +510,7 @@ void ReadCache::SkipBytes(size_t nof_skip) {
   }
 
   // First skip the remaining bytes.
+  data_count_ += data_size_ - file_index_;
   nof_skip -= data_size_ - file_index_;
 
   // If a list try to skip block by block first
@@ -523,6 +524,7 @@ void ReadCache::SkipBytes(size_t nof_skip) {
     }
     data_size_ = current_block->DataSize();
     if (nof_skip > data_size_) {
+      data_count_ += data_size_;
       nof_skip -= data_size_;
       continue;
     }
-- 
2.43.0


From a88f482e655b1c0be95cebdce18db751ee8f7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:21 +0000
Subject: [PATCH 27/56] fix: do not close a stream buffer after the writer has
 been used with a file

The writer kept the name of an earlier file when it got a stream buffer,
so it closed the user's file buffer and opened the earlier file with it.
---
 mdflib/src/mdfwriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 82d6c9c..70cf7c0 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -265,6 +265,7 @@ bool MdfWriter::Init(const std::shared_ptr<std::streambuf>& buffer) {
     ExitWriteCache();  // The background thread uses the current file
     CreateMdfFile();
     file_ = buffer;
+    filename_.clear();  // The user's buffer is never opened nor closed
     write_failed_ = false;
     write_state_ = WriteState::Create;
   } catch (const std::exception& err) {
-- 
2.43.0


From 3eb0fb6a8c6f5ed9d001a38da9c0e852b2ca92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:06 +0000
Subject: [PATCH 28/56] fix: report a file that cannot be read completely

The MD5 checksum and the compression of a file took a failed read as the
end of the file and reported success for a part of its bytes.
---
 mdflib/src/cryptoutil.cpp | 6 +++++-
 mdflib/src/zlibutil.cpp   | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cryptoutil.cpp b/mdflib/src/cryptoutil.cpp
index 3fd97f1..957a954 100644
--- a/mdflib/src/cryptoutil.cpp
+++ b/mdflib/src/cryptoutil.cpp
@@ -262,9 +262,13 @@ bool CreateMd5FileChecksum(const std::string &file, std::vector<uint8_t> &md5) {
              bytes = std::fread(temp.data(), sizeof(uint8_t), temp.size(), f)) {
           MD5_Update(&ctx, temp.data(), static_cast<unsigned long>(bytes));
         }
+        ok = std::ferror(f) == 0;
         fclose(f);
         MD5_Final(md5.data(), &ctx);
-        ok = true;
+        if (!ok) {
+          MDF_ERROR() << "Failed to create MD5 file checksum. File: " << file
+                      << ". Error: Failed to read the file";
+        }
       } else {
         MDF_ERROR() << "Failed to create MD5 file checksum. File: " << file
                     << ". Error: Failed to open the file";
diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index a0aadbc..0efcb2d 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -94,7 +94,7 @@ bool Deflate(const std::string& filename, ByteArray& buf_out) {
     file.close();
 
     if (nof_bytes < size) {
-      buf_in.resize(static_cast<size_t>(nof_bytes), 0);
+      return false;
     }
     if (buf_out.size() < buf_in.size()) {
       buf_out.resize(buf_in.size(), 0);
-- 
2.43.0


From ae8ace7c938ef3403e740e541db430d49dd67624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:06 +0000
Subject: [PATCH 29/56] fix: store and export attachments completely or report
 it

A read failure of the attached file, a compression failure and an empty
compressed attachment left the attachment and those after it out of the
file, with success. Exporting took the end of the file as 0xFF bytes. The
attached file was never closed.
---
 mdflib/src/at4block.cpp | 51 ++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 756d228..58dff78 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -48,10 +48,15 @@ std::string MakeFlagString(uint16_t flag) {
 }
 
 bool CopyBytes(std::streambuf& source, std::streambuf& dest, uint64_t nof_bytes) {
-  uint8_t temp = 0;
   for (uint64_t ii = 0; ii < nof_bytes; ++ii) {
-    temp = source.sbumpc();
-    dest.sputc(static_cast<char>(temp));
+    const auto temp = source.sbumpc();
+    if (temp == std::streambuf::traits_type::eof()) {
+      return false;
+    }
+    if (dest.sputc(static_cast<char>(temp)) ==
+        std::streambuf::traits_type::eof()) {
+      return false;
+    }
   }
   return true;
 }
@@ -75,8 +80,11 @@ bool FileToBuffer(const std::string& filename, mdf::ByteArray& dest) {
       Platform::fileopen(&file, filename.c_str(), "rb");
       if (file != nullptr) {
         const auto nof_bytes = fread(dest.data(), 1, static_cast<size_t>(size), file);
+        fclose(file);
         if (nof_bytes < size) {
-          dest.resize(nof_bytes);
+          MDF_ERROR() << "Failed to read all bytes of the file. File: "
+                      << filename;
+          return false;
         }
       } else {
         MDF_ERROR() << "Failed to open file. File: " << filename;
@@ -175,26 +183,27 @@ uint64_t At4Block::Write(std::streambuf& buffer) {
         MDF_ERROR() << "Attachment File doesn't exist. File: " << filename_;
       }
       if (fs::exists(filename)) {
-        if (const auto md5 = CreateMd5FileChecksum(filename_, md5_); md5) {
-          flags_ |= At4Flags::kUsingMd5;
+        if (const auto md5 = CreateMd5FileChecksum(filename_, md5_); !md5) {
+          throw std::runtime_error("Failed to read the file.");
         }
+        flags_ |= At4Flags::kUsingMd5;
         original_size_ = file_size(filename);
-        if (IsEmbedded() && IsCompressed()) {
+        if (original_size_ == 0) {
+          data_buffer_.clear();
+        } else if (IsEmbedded() && IsCompressed()) {
           if (const bool compress = Deflate(filename_, data_buffer_); !compress) {
-            MDF_ERROR() << "Compress failure. File: " << filename;
-            return 0;
+            throw std::runtime_error("Compress failure.");
           }
         } else if (IsEmbedded()) {
           if (const auto read = FileToBuffer(filename_, data_buffer_); !read) {
-            MDF_ERROR() << "File to buffer failure. File: " << filename;
-            return 0;
+            throw std::runtime_error("File to buffer failure.");
           }
         }
       }
     } catch (const std::exception& err) {
       MDF_ERROR() << "Attachment File error. Error: " << err.what()
                   << ", File: " << filename_;
-      return 0;
+      throw;  // The file must not be reported as complete
     }
 
     nof_bytes_ = data_buffer_.size();
@@ -245,10 +254,11 @@ void At4Block::ReadData(std::streambuf& buffer,
     if (!dest.is_open()) {
       throw std::ios_base::failure("Failed to open the destination file");
     }
-    const bool error = IsCompressed() ? !Inflate(buffer, dest, nof_bytes_)
+    const bool error = IsCompressed() && nof_bytes_ > 0
+                                      ? !Inflate(buffer, dest, nof_bytes_)
                                       : !CopyBytes(buffer, dest, nof_bytes_);
-    dest.close();
-    if ( error ) {
+    const bool closed = dest.close() != nullptr;
+    if ( error || !closed ) {
       throw std::ios_base::failure("Failed to copy correct number of bytes");
     }
   } else {
@@ -262,8 +272,7 @@ void At4Block::ReadData(std::streambuf& buffer,
   }
   if (flags_ & At4Flags::kUsingMd5) {
     std::vector<uint8_t> md5(16, 0xFF);
-    CreateMd5FileChecksum(dest_file, md5);
-    if (md5 != md5_) {
+    if (!CreateMd5FileChecksum(dest_file, md5) || md5 != md5_) {
       throw std::runtime_error("Mismatching MD5 checksums");
     }
   }
@@ -276,7 +285,8 @@ void At4Block::ReadData(std::streambuf& buffer,
   }
   SetFilePosition(buffer, data_position_);
   if (IsEmbedded()) {
-    const bool error = IsCompressed() ? !Inflate(buffer, dest_buffer, nof_bytes_)
+    const bool error = IsCompressed() && nof_bytes_ > 0
+                                      ? !Inflate(buffer, dest_buffer, nof_bytes_)
                                       : !CopyBytes(buffer, dest_buffer, nof_bytes_);
     if ( error ) {
       throw std::ios_base::failure("Failed to copy correct number of bytes");
@@ -287,9 +297,12 @@ void At4Block::ReadData(std::streambuf& buffer,
     if (!source.is_open()) {
       throw std::runtime_error("Failed to open the source file.");
     }
-    for (int input = source.get(); !source.eof(); input = source.get()) {
+    for (int input = source.get(); source.good(); input = source.get()) {
       dest_buffer.sputc(static_cast<char>(input));
     }
+    if (!source.eof()) {
+      throw std::ios_base::failure("Failed to read the source file");
+    }
   }
   // Difficult to check that the checksum was correct.
 }
-- 
2.43.0


From c91775ae6e5f5444710d7ea24e532f756373b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:16 +0000
Subject: [PATCH 30/56] fix: link compressed data when it has been written

---
 mdflib/src/writer4samplequeue.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 63d183e..bced5ca 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -353,9 +353,9 @@ void Writer4SampleQueue::SetLastPosition(std::streambuf& buffer) {
     return;
   }
 
-  dg4->SetLastFilePosition(buffer);
-  auto position = GetFilePosition(buffer);
-  dg4->UpdateLink(buffer, 2, position);
+  // The data link is set when the data block has been written. A link to
+  // a block that isn't in the file yet, costs the whole file if the
+  // application dies here.
   dg4->SetLastFilePosition(buffer);
 }
 
-- 
2.43.0


From 17dcdf76096e9b6276ac738e59bc92c30cac0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:03 +0000
Subject: [PATCH 31/56] fix: give each task its own temporary files

---
 include/mdf/mdftask.h  |  2 ++
 mdflib/src/mdftask.cpp | 38 ++++++++++++++++++++++++++------------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/mdf/mdftask.h b/include/mdf/mdftask.h
index 2acdd7a..a6d8e04 100644
--- a/include/mdf/mdftask.h
+++ b/include/mdf/mdftask.h
@@ -75,6 +75,7 @@ protected:
   void CheckDestinationFile() const;
   void CheckSourceAndDestinationDiff() const;
 
+  [[nodiscard]] std::string CreateTempDirectory();
   void CreateSourceTempFile();
   void CreateDestinationTempFile();
   void CreateWriter();
@@ -99,6 +100,7 @@ private:
   std::string source_file_;
   std::string destination_file_;
   std::string temp_file_;
+  std::string temp_directory_; ///< Owned by the task and holds the temp file
 
   mutable bool result_ = false;
   mutable bool error_ = false;
diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index 5c4c12b..fe706e0 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -110,10 +110,24 @@ void MdfTask::CheckSourceAndDestinationDiff() const {
   }
 }
 
+std::string MdfTask::CreateTempDirectory() {
+  // Each task needs its own directory as other tasks may work on files with
+  // the same name at the same time.
+  DeleteTempFile();
+  for (size_t index = 0; temp_directory_.empty(); ++index) {
+    const path temp = temp_directory_path()
+        / ("mdf_task_" + std::to_string(index));
+    if (create_directory(temp)) {
+      temp_directory_ = temp.string();
+    }
+  }
+  return temp_directory_;
+}
+
 void MdfTask::CreateSourceTempFile() {
   try {
     const path source(SourceFile());
-    path temp( temp_directory_path());
+    path temp( CreateTempDirectory());
     temp /= source.filename();
 
     if (temp == source) {
@@ -122,9 +136,8 @@ void MdfTask::CreateSourceTempFile() {
       );
     }
 
-    remove(temp);
-    copy(source, temp);
     TempFile(temp.string());
+    copy(source, temp);
   } catch (const std::exception& err) {
     std::ostringstream oss;
     oss << "Creating a temporary file failed."
@@ -138,7 +151,7 @@ void MdfTask::CreateSourceTempFile() {
 void MdfTask::CreateDestinationTempFile() {
   try {
     const path dest(DestinationFile());
-    path temp( temp_directory_path());
+    path temp( CreateTempDirectory());
     temp /= dest.filename();
 
     if (temp == dest) {
@@ -147,8 +160,6 @@ void MdfTask::CreateDestinationTempFile() {
     + DestinationFile() );
     }
 
-    remove(temp);
-
     TempFile(temp.string());
   } catch (const std::exception& err) {
     std::ostringstream oss;
@@ -287,13 +298,16 @@ IChannelGroup* MdfTask::CopyChannelConfig(const IChannelGroup& source_cg,
 }
 
 void MdfTask::DeleteTempFile() {
-  if (TempFile().empty()) {
-    return;
-  }
   try {
-    const path temp(TempFile());
-    remove(temp);
-    TempFile("");
+    if (!TempFile().empty()) {
+      const path temp(TempFile());
+      remove(temp);
+      TempFile("");
+    }
+    if (!temp_directory_.empty()) {
+      remove(path(temp_directory_));
+      temp_directory_.clear();
+    }
   } catch (const std::exception& err) {
     std::ostringstream oss;
     oss << "Deleting a temporary file failed."
-- 
2.43.0


From 829cf325d8025c015ab938413a4845ba95f3c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:03 +0000
Subject: [PATCH 32/56] fix: keep the destination file of a task if it cannot
 be replaced

---
 mdflib/src/mdftask.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index fe706e0..ccf0898 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -19,6 +19,32 @@
 
 using namespace std::filesystem;
 
+namespace {
+
+/** \brief Copies a file. The destination file is either the complete copy or,
+ * if the copying fails, left as it was. */
+void ReplaceFile(const path& source, path dest) {
+  if (is_symlink(dest)) {
+    dest = canonical(dest);
+  }
+  path copy = dest;
+  copy += ".tmp";
+  for (size_t index = 1; exists(copy); ++index) {
+    copy = dest;
+    copy += "." + std::to_string(index) + ".tmp";
+  }
+  try {
+    copy_file(source, copy);
+    rename(copy, dest);
+  } catch (const std::exception&) {
+    std::error_code ignore;
+    remove(copy, ignore);
+    throw;
+  }
+}
+
+}  // namespace
+
 namespace mdf {
 
 MdfTask::~MdfTask() {
@@ -218,10 +244,10 @@ void MdfTask::CopyTempFile() const {
     }
     if (exists(dest)) {
       if (OverwriteFile()) {
-        copy_file(temp, dest, std::filesystem::copy_options::overwrite_existing);
+        ReplaceFile(temp, dest);
       }
     } else {
-      copy_file(temp, dest);
+      ReplaceFile(temp, dest);
     }
   } catch (const std::exception& err) {
     std::ostringstream oss;
-- 
2.43.0


From bfc5da91ec3cdf2644b565078c7c3de1ec4e75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:03 +0000
Subject: [PATCH 33/56] fix: reset the result when a validation task is run
 again

---
 mdflib/src/mdftask.cpp        | 5 ++++-
 mdflib/src/validatingtask.cpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index ccf0898..49c4647 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -143,8 +143,11 @@ std::string MdfTask::CreateTempDirectory() {
   for (size_t index = 0; temp_directory_.empty(); ++index) {
     const path temp = temp_directory_path()
         / ("mdf_task_" + std::to_string(index));
-    if (create_directory(temp)) {
+    std::error_code error;
+    if (create_directory(temp, error)) {
       temp_directory_ = temp.string();
+    } else if (!exists(temp)) {
+      throw filesystem_error("Cannot create the directory", temp, error);
     }
   }
   return temp_directory_;
diff --git a/mdflib/src/validatingtask.cpp b/mdflib/src/validatingtask.cpp
index bbaea8b..39aaf41 100644
--- a/mdflib/src/validatingtask.cpp
+++ b/mdflib/src/validatingtask.cpp
@@ -16,6 +16,7 @@ namespace mdf {
 
 void ValidatingTask::Run() {
   try {
+    Result(false);
     CheckSourceFile();
     CreateSourceTempFile();
     const bool all_valid = ValidateAllValues();
-- 
2.43.0


From ea2eee094690f01b2da9a68cc6e7c9a536aec9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:21 +0000
Subject: [PATCH 34/56] fix: keep the texts of a conversion when it is copied

---
 mdflib/src/cc4block.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 99f43bf..33b0fc6 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -566,9 +566,10 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
 
     for (const auto& source_ref : cc4->ref_list_) {
       if (!source_ref) {
+        ref_list_.emplace_back(); // Keep the index of the references
         continue;
       }
-      if (source_ref->BlockType() != "TX") {
+      if (source_ref->BlockType() == "TX") {
         const auto* source_tx4 = dynamic_cast<const Tx4Block*>(source_ref.get());
         if (auto tx4_block = std::make_unique<Tx4Block>();
             tx4_block && source_tx4 != nullptr) {
-- 
2.43.0


From 7b6e363e9e02d00d4c0839b6725ae0e509ead283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:21 +0000
Subject: [PATCH 35/56] fix: report attachments that cannot be copied

---
 mdflib/src/at4block.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 58dff78..ace1b06 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -340,7 +340,7 @@ std::optional<std::string> At4Block::Md5() const {
 }
 
 void At4Block::CopyFrom(const IAttachment& source, MdfReader& reader) {
-  try {
+  if (dynamic_cast<const At4Block*>(&source) != nullptr) {
     const auto& at4 = dynamic_cast<const At4Block&>(source);
     flags_ = at4.flags_;
     creator_index_ = at4.creator_index_;
@@ -350,12 +350,16 @@ void At4Block::CopyFrom(const IAttachment& source, MdfReader& reader) {
     filename_ = at4.filename_;
     file_type_ = at4.file_type_;
     if (at4.data_position_ > 0 && at4.nof_bytes_ > 0) {
-      reader.ReadInDataBuffer(at4.data_position_, at4.nof_bytes_, data_buffer_);
+      const bool read = reader.ReadInDataBuffer(at4.data_position_,
+                                        at4.nof_bytes_, data_buffer_);
+      if (!read) {
+        throw std::runtime_error("Failed to read the attachment. File: "
+          + filename_);
+      }
     }
     AtComment comment;
     source.GetAtComment(comment);
     SetAtComment(comment);
-  } catch (const std::exception&) {
   }
 
 
-- 
2.43.0


From 954c50a6894e2abcd5cc8ab6dba687180b9c7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:21 +0000
Subject: [PATCH 36/56] fix: keep the times of the samples when a file is
 sorted

---
 mdflib/src/sortingtask.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index c1ded64..21e91c3 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -119,6 +119,12 @@ void SortingTask::SortFile() {
             "Failed to copy the channel group configuration. Channel Group: "
               + source_cg->Name());
         }
+        // The records already holds the time relative to the start time.
+        for (IChannel* channel : dest_cg->Channels()) {
+          if (channel != nullptr && channel->Type() == ChannelType::Master) {
+            channel->CalculateMasterTime(false);
+          }
+        }
         if (source_cg->NofSamples() > 0) {
           observer_list.push_back(std::make_unique<CopySampleObserver>(
             *source_dg, *source_cg,
-- 
2.43.0


From 6e971357d2d9bb32180b67110c00dab80b2d5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:21 +0000
Subject: [PATCH 37/56] fix: report that only MDF 4 files can be sorted

---
 mdflib/src/sortingtask.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index 21e91c3..430045e 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -70,6 +70,11 @@ void SortingTask::SortFile() {
       throw std::invalid_argument("Failed to get the source header. File: "
         + SourceFile());
     }
+    if (const MdfFile* source_file = reader_->GetFile();
+        source_file == nullptr || !source_file->IsMdf4()) {
+      throw std::invalid_argument("Only MDF 4 files can be sorted. File: "
+        + SourceFile());
+    }
     start_time_ = source_header->StartTime();
     IHeader* dest_header = writer_->Header();
     if (dest_header == nullptr) {
-- 
2.43.0


From ca1f141f77d8096cfabe2e556f23b20762184211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:35 +0000
Subject: [PATCH 38/56] fix: keep the data of variable length channels when a
 file is sorted

---
 mdflib/src/cn4block.h             |  1 +
 mdflib/src/copysampleobserver.cpp | 41 ++++++++++++++++++++++++++++++-
 mdflib/src/copysampleobserver.h   |  2 ++
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cn4block.h b/mdflib/src/cn4block.h
index 559b660..bceede3 100644
--- a/mdflib/src/cn4block.h
+++ b/mdflib/src/cn4block.h
@@ -89,6 +89,7 @@ class Cn4Block : public DataListBlock, public IChannel {
     data_list_.shrink_to_fit();
   }
   const std::vector<uint8_t>& DataList() const { return data_list_; }
+  void DataList(const std::vector<uint8_t>& data) const { data_list_ = data; }
 
   void UpdateDataLink(std::streambuf& buffer, int64_t position);
   [[nodiscard]] int64_t DataLink() const;
diff --git a/mdflib/src/copysampleobserver.cpp b/mdflib/src/copysampleobserver.cpp
index 3317182..741f80d 100644
--- a/mdflib/src/copysampleobserver.cpp
+++ b/mdflib/src/copysampleobserver.cpp
@@ -6,6 +6,39 @@
 #include "copysampleobserver.h"
 
 #include <iostream>
+
+#include "cn4block.h"
+
+namespace {
+
+/** \brief Copies the signal data (SD) of variable length channels.
+ *
+ * The copied records hold offsets into the signal data, so the data bytes of
+ * the source channels are needed as they are. The data bytes are only available
+ * while the data is read. */
+void CopySignalData(const std::vector<mdf::IChannel*>& source_list,
+                    const std::vector<mdf::IChannel*>& dest_list) {
+  if (source_list.size() != dest_list.size()) {
+    throw std::runtime_error("Failed to copy all the channels.");
+  }
+  for (size_t index = 0; index < source_list.size(); ++index) {
+    const auto* source =
+        dynamic_cast<const mdf::detail::Cn4Block*>(source_list[index]);
+    const auto* dest =
+        dynamic_cast<const mdf::detail::Cn4Block*>(dest_list[index]);
+    if (source == nullptr || dest == nullptr) {
+      continue;
+    }
+    if (source->Type() == mdf::ChannelType::VariableLength &&
+        source->VlsdRecordId() == 0) {
+      dest->DataList(source->DataList());
+    }
+    CopySignalData(source->ChannelCompositions(), dest->ChannelCompositions());
+  }
+}
+
+}  // namespace
+
 namespace mdf {
 CopySampleObserver::CopySampleObserver(const IDataGroup& data_group,
                                        const IChannelGroup& channel_group,
@@ -16,11 +49,17 @@ CopySampleObserver::CopySampleObserver(const IDataGroup& data_group,
 : SampleRecordObserver(data_group, channel_group, base_time),
   writer_(writer),
   dest_data_group_(dest_data_group),
-  dest_channel_group_(dest_channel_group) {
+  dest_channel_group_(dest_channel_group),
+  source_channel_group_(channel_group) {
 
 }
 
 void CopySampleObserver::OnSampleRecord() {
+   if (!signal_data_copied_) {
+     signal_data_copied_ = true;
+     CopySignalData(source_channel_group_.TopLevelChannels(),
+                    dest_channel_group_.TopLevelChannels());
+   }
    SampleRecord record;
    GetSampleRecord(record);
    record.record_id = dest_channel_group_.RecordId();
diff --git a/mdflib/src/copysampleobserver.h b/mdflib/src/copysampleobserver.h
index 9058d86..8819042 100644
--- a/mdflib/src/copysampleobserver.h
+++ b/mdflib/src/copysampleobserver.h
@@ -24,6 +24,8 @@ private:
   MdfWriter& writer_;
   const IDataGroup& dest_data_group_;
   const IChannelGroup& dest_channel_group_;
+  const IChannelGroup& source_channel_group_;
+  bool signal_data_copied_ = false; ///< Set when the SD data has been copied.
 
 };
 
-- 
2.43.0


From 5492ad07dcbcc1258f23aa01e13734dcb742bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:35 +0000
Subject: [PATCH 39/56] fix: report samples that cannot be read when a file is
 sorted

---
 mdflib/src/copysampleobserver.cpp |  1 +
 mdflib/src/copysampleobserver.h   |  6 ++++++
 mdflib/src/sortingtask.cpp        | 11 ++++++++++-
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/copysampleobserver.cpp b/mdflib/src/copysampleobserver.cpp
index 741f80d..b0c0b39 100644
--- a/mdflib/src/copysampleobserver.cpp
+++ b/mdflib/src/copysampleobserver.cpp
@@ -64,6 +64,7 @@ void CopySampleObserver::OnSampleRecord() {
    GetSampleRecord(record);
    record.record_id = dest_channel_group_.RecordId();
    uint64_t sample_time = record.timestamp;
+   ++nof_samples_;
    writer_.AddSample(dest_data_group_, dest_channel_group_, sample_time,
                                    std::move(record));
 }
diff --git a/mdflib/src/copysampleobserver.h b/mdflib/src/copysampleobserver.h
index 8819042..9c7c552 100644
--- a/mdflib/src/copysampleobserver.h
+++ b/mdflib/src/copysampleobserver.h
@@ -20,11 +20,17 @@ public:
                      const IChannelGroup& dest_channel_group);
 
   void OnSampleRecord() override;
+
+  /** \brief Returns true if all samples have been copied. */
+  [[nodiscard]] bool IsComplete() const {
+    return nof_samples_ >= source_channel_group_.NofSamples();
+  }
 private:
   MdfWriter& writer_;
   const IDataGroup& dest_data_group_;
   const IChannelGroup& dest_channel_group_;
   const IChannelGroup& source_channel_group_;
+  uint64_t nof_samples_ = 0; ///< Number of copied samples.
   bool signal_data_copied_ = false; ///< Set when the SD data has been copied.
 
 };
diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index 430045e..33cb76f 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -144,7 +144,16 @@ void SortingTask::SortFile() {
           "Failed to initialize the measurement. File: " + TempFile());
       }
       writer_->StartMeasurement(start_time_);
-      reader_->ReadData(*source_dg);
+      if (const bool read = reader_->ReadData(*source_dg); !read) {
+        throw std::runtime_error("Failed to read the data. File: "
+          + SourceFile());
+      }
+      for (const auto& sample_observer : observer_list) {
+        if (sample_observer && !sample_observer->IsComplete()) {
+          throw std::runtime_error("Samples are missing. File: "
+            + SourceFile());
+        }
+      }
       uint64_t stop_time = start_time_;
       for (auto& sample_observer : observer_list) {
         if (sample_observer && sample_observer->GetSampleTime() > stop_time) {
-- 
2.43.0


From b68a5ae42946da8e90ecd4d5d565a263bd879c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:56 +0000
Subject: [PATCH 40/56] fix: read the element links of a channel hierarchy from
 the right position

---
 mdflib/src/ch4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..2919171 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -148,8 +148,8 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
-    if (index < link_list_.size()) {
+    const auto index = kIndexElement + (index_n * 3);
+    if (index + 2 < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
       const auto *block3 = hd4.Find(Link(index + 2));
-- 
2.43.0


From 7a9c7b8e2f198da8518bde0c31afd9fcdde9374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:27 +0000
Subject: [PATCH 41/56] fix: keep references to blocks that are written later

---
 mdflib/src/ch4block.cpp | 15 +++++++++++++++
 mdflib/src/ch4block.h   |  3 +++
 mdflib/src/dg4block.cpp | 29 ++++++++++++++++-------------
 mdflib/src/dg4block.h   |  3 +++
 mdflib/src/ev4block.cpp |  5 +++++
 mdflib/src/ev4block.h   |  3 +++
 mdflib/src/hd4block.cpp | 11 +++++++++++
 mdflib/src/mdfblock.cpp |  8 ++++++++
 mdflib/src/mdfblock.h   |  4 ++++
 9 files changed, 68 insertions(+), 13 deletions(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index 2919171..314322a 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -173,6 +173,21 @@ void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   }
 }
 
+void Ch4Block::UpdateReferences(std::streambuf& buffer) {  // NOLINT
+  for (size_t index_n = 0; index_n < element_list_.size(); ++index_n) {
+    const auto index = kIndexElement + (index_n * 3);
+    const auto &element = element_list_[index_n];
+    UpdateReference(buffer, index, element.data_group);
+    UpdateReference(buffer, index + 1, element.channel_group);
+    UpdateReference(buffer, index + 2, element.channel);
+  }
+  for (auto &ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateReferences(buffer);
+    }
+  }
+}
+
 IChannelHierarchy *Ch4Block::CreateChannelHierarchy() {
   auto ch4 = std::make_unique<Ch4Block>();
   ch4->Init(*this);
diff --git a/mdflib/src/ch4block.h b/mdflib/src/ch4block.h
index a9a3f58..08c12d6 100644
--- a/mdflib/src/ch4block.h
+++ b/mdflib/src/ch4block.h
@@ -46,6 +46,9 @@ class Ch4Block : public MdfBlock, public IChannelHierarchy {
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
 
+  /** \brief Updates the links to blocks that were written after this block. */
+  void UpdateReferences(std::streambuf& buffer);
+
   [[nodiscard]] IChannelHierarchy *CreateChannelHierarchy() override;
   [[nodiscard]] std::vector<IChannelHierarchy *> ChannelHierarchies()
       const override;
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index d85f500..069ab10 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -136,13 +136,6 @@ uint64_t Dg4Block::Write(std::streambuf& buffer) {
         continue;
       }
       UpdateVlsdChannel(buffer, *cg4);
-      const auto& cn4_list = cg4->Cn4();
-      for (const auto& channel_x : cn4_list) {
-        if (!channel_x) {
-          continue;
-        }
-        UpdateDefaultX(buffer, *channel_x);
-      }
     }
   }
   // Need to write any data block, so it is positioned last in the file
@@ -622,12 +615,22 @@ void Dg4Block::UpdateDefaultX(std::streambuf& buffer, Cn4Block& cn4) {
   if ((cn4.Flags() & CnFlag::DefaultX) != 0) {
     const auto default_x = cn4.DefaultX();
     const auto index = 8 + cn4.AttachmentList().size();
-    const auto *dg4_x = default_x.data_group;
-    const auto *cg4_x = default_x.channel_group;
-    const auto *cn4_x = default_x.channel;
-    cn4.UpdateLink(buffer, index + 0, dg4_x != nullptr ? dg4_x->Index() : 0);
-    cn4.UpdateLink(buffer, index + 1, cg4_x != nullptr ? cg4_x->Index() : 0);
-    cn4.UpdateLink(buffer, index + 2, cn4_x != nullptr ? cn4_x->Index() : 0);
+    cn4.UpdateReference(buffer, index + 0, default_x.data_group);
+    cn4.UpdateReference(buffer, index + 1, default_x.channel_group);
+    cn4.UpdateReference(buffer, index + 2, default_x.channel);
+  }
+}
+
+void Dg4Block::UpdateReferences(std::streambuf& buffer) {
+  for (auto& cg4 : cg_list_) {
+    if (!cg4) {
+      continue;
+    }
+    for (const auto& channel_x : cg4->Cn4()) {
+      if (channel_x) {
+        UpdateDefaultX(buffer, *channel_x);
+      }
+    }
   }
 }
 
diff --git a/mdflib/src/dg4block.h b/mdflib/src/dg4block.h
index 6c4755a..15357cb 100644
--- a/mdflib/src/dg4block.h
+++ b/mdflib/src/dg4block.h
@@ -63,6 +63,9 @@ class Dg4Block : public DataListBlock, public IDataGroup {
   [[nodiscard]] IChannelGroup *FindParentChannelGroup(
       const IChannel &channel) const override;
   [[nodiscard]] Cg4Block* FindCgRecordId(uint64_t record_id) const;
+
+  /** \brief Updates the links to blocks that were written after this block. */
+  void UpdateReferences(std::streambuf& buffer);
  private:
   uint8_t rec_id_size_ = 0;
   /* 7 byte reserved */
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index e8cd1a1..0dd8558 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -309,6 +309,11 @@ IMetaData *Ev4Block::MetaData() const {
   return MdfBlock::MetaData();
 }
 
+void Ev4Block::UpdateReferences(std::streambuf& buffer) {
+  UpdateReference(buffer, kIndexParent, parent_event_);
+  UpdateReference(buffer, kIndexRange, range_event_);
+}
+
 void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   parent_event_ = dynamic_cast<const Ev4Block *>(hd4.Find(Link(kIndexParent)));
   range_event_ = dynamic_cast<const Ev4Block *>(hd4.Find(Link(kIndexRange)));
diff --git a/mdflib/src/ev4block.h b/mdflib/src/ev4block.h
index 6b5867b..121e211 100644
--- a/mdflib/src/ev4block.h
+++ b/mdflib/src/ev4block.h
@@ -19,6 +19,9 @@ class Ev4Block : public MdfBlock, public IEvent {
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
 
+  /** \brief Updates the links to blocks that were written after this block. */
+  void UpdateReferences(std::streambuf& buffer);
+
   [[nodiscard]] int64_t Index() const override;
   [[nodiscard]] std::string BlockType() const override {
     return MdfBlock::BlockType();
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..bd74670 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -543,6 +543,17 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   // in these cases.
   WriteLink4List(buffer, dg_list_, kIndexDg,
        UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
+
+  // The blocks may reference blocks that were written after them.
+  for (auto& ch4 : ch_list_) {
+    ch4->UpdateReferences(buffer);
+  }
+  for (auto& ev4 : ev_list_) {
+    ev4->UpdateReferences(buffer);
+  }
+  for (auto& dg4 : dg_list_) {
+    dg4->UpdateReferences(buffer);
+  }
   return bytes;
 }
 
diff --git a/mdflib/src/mdfblock.cpp b/mdflib/src/mdfblock.cpp
index 1447b5c..a36f0c4 100644
--- a/mdflib/src/mdfblock.cpp
+++ b/mdflib/src/mdfblock.cpp
@@ -759,6 +759,14 @@ void MdfBlock::UpdateLink(std::streambuf& buffer, size_t link_index, int64_t lin
   link_list_[link_index] = link;
 }
 
+void MdfBlock::UpdateReference(std::streambuf& buffer, size_t link_index,
+                               const IBlock* block) {
+  if (block != nullptr && block->Index() > 0 &&
+      link_index < link_list_.size() && Link(link_index) == 0) {
+    UpdateLink(buffer, link_index, block->Index());
+  }
+}
+
 void MdfBlock::UpdateBlockSize(std::streambuf& buffer, uint64_t bytes) {
   auto pos = FilePosition();
   if (pos <= 0) {
diff --git a/mdflib/src/mdfblock.h b/mdflib/src/mdfblock.h
index 17f0ebc..c28f2c8 100644
--- a/mdflib/src/mdfblock.h
+++ b/mdflib/src/mdfblock.h
@@ -144,6 +144,10 @@ class MdfBlock {
   //void UpdateLink(std::FILE *file, size_t link_index, int64_t link);
   void UpdateLink(std::streambuf& buffer, size_t link_index, int64_t link);
 
+  /** \brief Sets an empty link if the referenced block now is written. */
+  void UpdateReference(std::streambuf& buffer, size_t link_index,
+                       const IBlock* block);
+
   [[nodiscard]] virtual std::string Comment() const;
 
  // template <typename T>
-- 
2.43.0


From 0abe38a131ec92ad93377761da99fc2837c7becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:04 +0000
Subject: [PATCH 42/56] fix: save and read the scopes of an event

---
 include/mdf/ievent.h    |  6 +++++-
 mdflib/src/ev4block.cpp | 11 ++++++++---
 mdflib/src/ev4block.h   |  2 +-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/mdf/ievent.h b/include/mdf/ievent.h
index 48170f6..dac1eaf 100644
--- a/include/mdf/ievent.h
+++ b/include/mdf/ievent.h
@@ -104,7 +104,11 @@ class IEvent : public IBlock {
   /** \brief Returns the range. */
   [[nodiscard]] virtual const IEvent* RangeEvent() const = 0;
 
-  /** \brief Adds a scope reference. */
+  /** \brief Adds a scope reference.
+   *
+   * The scope is a pointer to a channel (IChannel) or to a channel group
+   * (IChannelGroup), i.e. a pointer to its IBlock base.
+   */
   virtual void AddScope(const void* scope) = 0;
   /** \brief Returns referenced CN and CG blocks. */
   [[nodiscard]] virtual const std::vector<const void*>& Scopes() const = 0;
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index 0dd8558..724cef0 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -192,8 +192,8 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   link_list_[kIndexRange] = range_event_ != nullptr ? range_event_->Index() : 0;
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
-    const auto *block = reinterpret_cast<const MdfBlock *>(scope_list_[index_m]);
-    link_list_[index] = block != nullptr ? block->FilePosition() : 0;
+    const auto *block = static_cast<const IBlock *>(scope_list_[index_m]);
+    link_list_[index] = block != nullptr ? block->Index() : 0;
   }
   for (size_t index_n = 0; index_n < length_n_; ++index_n) {
     const auto index = 5 + length_m_ + index_n;
@@ -312,6 +312,10 @@ IMetaData *Ev4Block::MetaData() const {
 void Ev4Block::UpdateReferences(std::streambuf& buffer) {
   UpdateReference(buffer, kIndexParent, parent_event_);
   UpdateReference(buffer, kIndexRange, range_event_);
+  for (size_t index_m = 0; index_m < scope_list_.size(); ++index_m) {
+    UpdateReference(buffer, kIndexScope + index_m,
+                    static_cast<const IBlock *>(scope_list_[index_m]));
+  }
 }
 
 void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
@@ -321,7 +325,8 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
-      scope_list_.push_back(hd4.Find(Link(index)));
+      scope_list_.push_back(
+          dynamic_cast<const IBlock *>(hd4.Find(Link(index))));
     }
   }
 
diff --git a/mdflib/src/ev4block.h b/mdflib/src/ev4block.h
index 121e211..c49767d 100644
--- a/mdflib/src/ev4block.h
+++ b/mdflib/src/ev4block.h
@@ -83,7 +83,7 @@ class Ev4Block : public MdfBlock, public IEvent {
 
   const IEvent *parent_event_ = nullptr;
   const IEvent *range_event_ = nullptr;
-  std::vector<const void *> scope_list_;  ///< List of MdfBlock pointers
+  std::vector<const void *> scope_list_;  ///< List of IBlock pointers
   std::vector<const IAttachment *> attachment_list_;
 
   std::string name_;
-- 
2.43.0


From b8c499b2c345de74392a8b71007035d125413aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:40 +0000
Subject: [PATCH 43/56] fix: keep references of a channel array to blocks that
 are written later

---
 mdflib/src/ca4block.cpp | 41 +++++++++++++++++++++++++++++++++++++++++
 mdflib/src/ca4block.h   |  3 +++
 mdflib/src/dg4block.cpp |  6 ++++++
 3 files changed, 50 insertions(+)

diff --git a/mdflib/src/ca4block.cpp b/mdflib/src/ca4block.cpp
index fe6234c..3e1000e 100644
--- a/mdflib/src/ca4block.cpp
+++ b/mdflib/src/ca4block.cpp
@@ -525,6 +525,47 @@ uint64_t Ca4Block::Write(std::streambuf& buffer) {
   return bytes;
 }
 
+void Ca4Block::UpdateReferences(std::streambuf& buffer) {
+  size_t link_index = kIndexArray;
+  const auto update = [&](const CaTripleReference& ref) {
+    UpdateReference(buffer, link_index, ref.DataGroup);
+    UpdateReference(buffer, link_index + 1, ref.ChannelGroup);
+    UpdateReference(buffer, link_index + 2, ref.Channel);
+    link_index += 3;
+  };
+  const auto update_list = [&](const std::vector<CaTripleReference>& list) {
+    for (size_t index = 0; index < Dimensions(); ++index) {
+      update(index < list.size() ? list[index] : CaTripleReference());
+    }
+  };
+  if (Storage() == ArrayStorage::DgTemplate) {
+    link_index += static_cast<size_t>(ProductOfArray());
+  }
+  if ((Flags() & CaFlag::DynamicSize) != 0) {
+    update_list(dynamic_size_list_);
+  }
+  if ((Flags() & CaFlag::InputQuantity) != 0) {
+    update_list(input_quantity_list_);
+  }
+  if ((Flags() & CaFlag::OutputQuantity) != 0) {
+    update(output_quantity_);
+  }
+  if ((Flags() & CaFlag::ComparisonQuantity) != 0) {
+    update(comparison_quantity_);
+  }
+  if ((Flags() & CaFlag::Axis) != 0) {
+    for (size_t index = 0; index < Dimensions(); ++index) {
+      if (index < axis_conversion_list_.size()) {
+        UpdateReference(buffer, link_index, axis_conversion_list_[index]);
+      }
+      ++link_index;
+    }
+  }
+  if ((Flags() & CaFlag::Axis) != 0 && (Flags() & CaFlag::FixedAxis) == 0) {
+    update_list(axis_list_);
+  }
+}
+
 int64_t Ca4Block::Index() const { return FilePosition(); }
 
 void Ca4Block::Type(ArrayType type) { type_ = static_cast<uint8_t>(type); }
diff --git a/mdflib/src/ca4block.h b/mdflib/src/ca4block.h
index a3aaf2d..ec569db 100644
--- a/mdflib/src/ca4block.h
+++ b/mdflib/src/ca4block.h
@@ -64,6 +64,9 @@ class Ca4Block : public MdfBlock, public IChannelArray {
 
   uint64_t Write(std::streambuf& buffer) override;
 
+  /** \brief Updates the links to blocks that were written after this block. */
+  void UpdateReferences(std::streambuf& buffer);
+
   void SetParentChannel(const Cn4Block* parent);
   void PrepareForWriting();
   void CopyFrom(const IChannelArray& source) override;
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 069ab10..3601776 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -9,6 +9,7 @@
 #include <map>
 
 #include "dl4block.h"
+#include "ca4block.h"
 #include "dt4block.h"
 #include "dz4block.h"
 #include "hl4block.h"
@@ -629,6 +630,11 @@ void Dg4Block::UpdateReferences(std::streambuf& buffer) {
     for (const auto& channel_x : cg4->Cn4()) {
       if (channel_x) {
         UpdateDefaultX(buffer, *channel_x);
+        for (auto* array : channel_x->ChannelArrays()) {
+          if (auto* ca4 = dynamic_cast<Ca4Block*>(array); ca4 != nullptr) {
+            ca4->UpdateReferences(buffer);
+          }
+        }
       }
     }
   }
-- 
2.43.0


From ae8abe32264022a36ba5b57ee06fa833114c3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:11 +0000
Subject: [PATCH 44/56] fix: count the formula in the size of an MDF 3
 conversion block

---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index 13a00b9..39dfa7b 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -332,7 +332,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 10:  // Text formula
       nof_values_ = static_cast<uint16_t>(formula_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      WriteStr(buffer, formula_, formula_.size());
+      bytes += WriteStr(buffer, formula_, formula_.size());
       break;
 
     case 11:  // Text Table
-- 
2.43.0


From cc0bf1ab10639879aa6acf3041f3b473de1334ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:47 +0000
Subject: [PATCH 45/56] fix: BigBuffer::value() used a temporary after its
 lifetime

The value was read through a pointer to an array that was out of scope, so
the value of big endian UTF-16 characters depended on the optimization.
---
 mdflib/src/bigbuffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/bigbuffer.h b/mdflib/src/bigbuffer.h
index 4b1fdef..ed90d3b 100644
--- a/mdflib/src/bigbuffer.h
+++ b/mdflib/src/bigbuffer.h
@@ -67,15 +67,15 @@ size_t BigBuffer<T>::size() const {
 
 template <typename T>
 T BigBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  std::array<uint8_t, sizeof(T)> temp = buffer_;
   if (IsLittleEndian()) { // Computer uses little endian
-    std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
   }
-  return *val;
+  T val{};
+  memcpy(&val, temp.data(), sizeof(T));
+  return val;
 }
 
 }  // namespace mdf
-- 
2.43.0


From 1fd2466fc31908321e173ac06701ceb7aecbaab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 46/56] fix: convert UTF-16 surrogate pairs to one character

Texts with such characters couldn't be read where wchar_t has 32 bits.
---
 mdflib/src/mdfhelper.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 6541c78..6a732f5 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -326,6 +326,24 @@ std::string MdfHelper::Latin1ToUtf8(const std::string &latin1) {
 
 std::string MdfHelper::Utf16ToUtf8(const std::wstring &utf16) {
   if (utf16.empty()) return {};
+  if constexpr (sizeof(wchar_t) > 2) {
+    // The surrogate pairs need to be converted to one code point.
+    std::wstring utf32;
+    for (size_t index = 0; index < utf16.size(); ++index) {
+      const auto lead = static_cast<uint32_t>(utf16[index]);
+      const auto trail = index + 1 < utf16.size()
+          ? static_cast<uint32_t>(utf16[index + 1]) : 0;
+      if (lead >= 0xD800 && lead <= 0xDBFF &&
+          trail >= 0xDC00 && trail <= 0xDFFF) {
+        utf32 += static_cast<wchar_t>(0x10000 + ((lead - 0xD800) << 10)
+                                      + (trail - 0xDC00));
+        ++index;
+      } else {
+        utf32 += utf16[index];
+      }
+    }
+    return widetoutf8(utf32);
+  }
   return widetoutf8(utf16);
 }
 
-- 
2.43.0


From a784085a672540a3f8786bee527b2fcb09590f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 47/56] fix: store the text of UTF-16 channels in UTF-16

The UTF-8 bytes of the text were stored, so the text was read back as
something else.
---
 include/mdf/mdfhelper.h  |  8 ++++++++
 mdflib/src/cn4block.cpp  |  9 ++++++++-
 mdflib/src/ichannel.cpp  | 11 +++++++++++
 mdflib/src/mdfhelper.cpp | 22 ++++++++++++++++++++++
 4 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/include/mdf/mdfhelper.h b/include/mdf/mdfhelper.h
index 5046a4a..d34b3f5 100644
--- a/include/mdf/mdfhelper.h
+++ b/include/mdf/mdfhelper.h
@@ -231,6 +231,14 @@ class MdfHelper {
   static std::string Utf16ToUtf8(const std::wstring &utf16);
   /** \brief Converts a wide UTF8 string to an UTF16 string. */
   static std::wstring Utf8ToUtf16(const std::string &utf8);
+  /** \brief Converts a UTF8 string to an array with UTF16 coded bytes.
+   *
+   * @param utf8 Text to convert.
+   * @param little_endian True if the bytes should be in little endian order.
+   * @return The bytes without any terminating null.
+   */
+  static std::vector<uint8_t> Utf8ToUtf16Array(const std::string &utf8,
+                                               bool little_endian);
   /** \brief Returns tru if this computer uses Little Endian. */
   static bool ComputerUseLittleEndian();
 
diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 98828eb..9aab77a 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -806,7 +806,14 @@ bool Cn4Block::GetByteArrayValue(const std::vector<uint8_t> &record_buffer,
 }
 
 void Cn4Block::SetTextValue(const std::string &value, bool valid) {
-  if (Type() == ChannelType::VariableLength) {
+  if (Type() == ChannelType::VariableLength &&
+      (DataType() == ChannelDataType::StringUTF16Le ||
+       DataType() == ChannelDataType::StringUTF16Be)) {
+    auto text = MdfHelper::Utf8ToUtf16Array(
+        value, DataType() == ChannelDataType::StringUTF16Le);
+    text.resize(text.size() + 2, 0); // Null terminated
+    SetByteArray(text, valid);
+  } else if (Type() == ChannelType::VariableLength) {
     SetValid(valid,0);
     // String stored in signal data. Index should be stored in the record
     // and the string in a temporary data block (data_list_). This block is
diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..1ad75e1 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -556,6 +556,17 @@ void IChannel::SetTextValue(const std::string &value, bool valid) {
     SetValid(false,0);
     return;
   }
+  if (DataType() == ChannelDataType::StringUTF16Le ||
+      DataType() == ChannelDataType::StringUTF16Be) {
+    auto text = MdfHelper::Utf8ToUtf16Array(
+        value, DataType() == ChannelDataType::StringUTF16Le);
+    // The string shall be null terminated
+    if (text.size() + 2 > bytes) {
+      text.resize(bytes >= 2 ? ((bytes - 2) / 2) * 2 : 0);
+    }
+    SetByteArray(text, valid);
+    return;
+  }
   // The string shall be null terminated
   memset(buffer.data() + ByteOffset(), '\0', bytes);
   if (value.size() < bytes) {
diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 6a732f5..eba01c0 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -352,6 +352,28 @@ std::wstring MdfHelper::Utf8ToUtf16(const std::string &utf8) {
   return utf8towide(utf8);
 }
 
+std::vector<uint8_t> MdfHelper::Utf8ToUtf16Array(const std::string &utf8,
+                                                 bool little_endian) {
+  std::vector<uint8_t> dest;
+  const auto add = [&](uint32_t unit) -> void {
+    const auto low = static_cast<uint8_t>(unit & 0xFF);
+    const auto high = static_cast<uint8_t>((unit >> 8) & 0xFF);
+    dest.push_back(little_endian ? low : high);
+    dest.push_back(little_endian ? high : low);
+  };
+  // Note that a wide character may be 16 or 32 bits
+  for (const wchar_t wide : Utf8ToUtf16(utf8)) {
+    const auto code = static_cast<uint32_t>(wide);
+    if (code > 0xFFFF) {
+      add(0xD800 + ((code - 0x10000) >> 10));
+      add(0xDC00 + ((code - 0x10000) & 0x3FF));
+    } else {
+      add(code);
+    }
+  }
+  return dest;
+}
+
 bool MdfHelper::ComputerUseLittleEndian() {
   constexpr int num = 1;
   return *(reinterpret_cast<const char *>(&num)) == 1;
-- 
2.43.0


From 406665654d7c40f0e2bebf3e5088a64faab2a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:17 +0000
Subject: [PATCH 48/56] fix: CAN message view gave wrong messages when the data
 is read more than once

The observer counted the records that were read since it was created, so
a second read, or a read of a part of the samples, paired payloads with
the wrong messages or lost them.
---
 include/mdf/canbusobserver.h  | 4 ++++
 mdflib/src/canbusobserver.cpp | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/mdf/canbusobserver.h b/include/mdf/canbusobserver.h
index 99117ea..6120a69 100644
--- a/include/mdf/canbusobserver.h
+++ b/include/mdf/canbusobserver.h
@@ -38,8 +38,12 @@ private:
     uint64_t sample = 0;
     std::vector<uint8_t> record;
     std::vector<uint8_t> vlsd_data;
+    bool record_received = false;
+    bool vlsd_received = false;
     void Reset() {
       sample = 0;
+      record_received = false;
+      vlsd_received = false;
       record.clear();
       record.shrink_to_fit();
       vlsd_data.clear();
diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index 05450e9..111d67a 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -108,8 +108,11 @@ bool CanBusObserver::OnSample(uint64_t sample, uint64_t record_id,
     return false;
   }
 
+  // Note that the samples start all over if the data is read once more.
   const auto current_sample_index = static_cast<int64_t>(sample);
-  if (current_sample_index > current_sample_index_) {
+  bool& received = record_id != channel_group_.RecordId() ?
+    last_sample_.vlsd_received : last_sample_.record_received;
+  if (current_sample_index != current_sample_index_ || received) {
     last_sample_.Reset();
     last_sample_.sample = sample;
     current_sample_index_ = current_sample_index;
@@ -117,6 +120,7 @@ bool CanBusObserver::OnSample(uint64_t sample, uint64_t record_id,
   } else {
     new_sample_ = false;
   }
+  received = true;
 
   if (OnCanMessage) {
     // The user uses callback. Reset the internal queue
-- 
2.43.0


From d72b4842669b4ac9c2542f4172f80edbe3a11fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:37 +0000
Subject: [PATCH 49/56] fix: exporting a referenced attachment to a stream hid
 a changed file and a failing stream

---
 mdflib/src/at4block.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index ace1b06..1d31641 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -292,13 +292,22 @@ void At4Block::ReadData(std::streambuf& buffer,
       throw std::ios_base::failure("Failed to copy correct number of bytes");
     }
   } else {
-    // Need to copy the source file
+    // Need to copy the source file, if it still is the file that was stored
+    if (flags_ & At4Flags::kUsingMd5) {
+      std::vector<uint8_t> md5(16, 0xFF);
+      if (!CreateMd5FileChecksum(filename_, md5) || md5 != md5_) {
+        throw std::runtime_error("Mismatching MD5 checksums");
+      }
+    }
     std::ifstream source(filename_, std::ios_base::in | std::ios_base::binary);
     if (!source.is_open()) {
       throw std::runtime_error("Failed to open the source file.");
     }
     for (int input = source.get(); source.good(); input = source.get()) {
-      dest_buffer.sputc(static_cast<char>(input));
+      if (dest_buffer.sputc(static_cast<char>(input)) ==
+          std::streambuf::traits_type::eof()) {
+        throw std::ios_base::failure("Failed to copy correct number of bytes");
+      }
     }
     if (!source.eof()) {
       throw std::ios_base::failure("Failed to read the source file");
-- 
2.43.0


From 4a7ee14287106e2f45c9d1d5df080a3a39462f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:49 +0000
Subject: [PATCH 50/56] fix: bus messages logged into the empty data group of
 an earlier measurement were lost

CreateBusLogConfiguration() added its channel groups to the last data group
if that held no samples, even if the group belongs to an earlier measurement
and already is stored in the file. The sample counters of such a group are
not updated in the file, so all messages logged were lost.
---
 mdflib/src/mdfwriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 70cf7c0..4b45ee3 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -425,9 +425,10 @@ bool MdfWriter::CreateBusLogConfiguration() {
     return false;
   }
 
-  // 1. Create new DG block if not already exists
+  // 1. Create new DG block if not already exists. Note that a DG block that
+  // already is stored in the file, belongs to an earlier measurement.
   auto* last_dg = header->LastDataGroup();
-  if (last_dg == nullptr || !last_dg->IsEmpty()) {
+  if (last_dg == nullptr || !last_dg->IsEmpty() || last_dg->Index() > 0) {
     last_dg = header->CreateDataGroup();
   }
   if (last_dg == nullptr) {
-- 
2.43.0


From 62d53b65e5a53526a2115760b008aba61ccf2197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:29 +0000
Subject: [PATCH 51/56] fix: the bus channel was stored as a control character
 in the group name

MakeGroupName() streamed the 8-bit channel number as a character. The name of
the group then held a control character and the description of its time
channel was not valid XML. Channel 0 ended the name.
---
 mdflib/src/iconfigadapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/iconfigadapter.cpp b/mdflib/src/iconfigadapter.cpp
index ee262ca..17f1036 100644
--- a/mdflib/src/iconfigadapter.cpp
+++ b/mdflib/src/iconfigadapter.cpp
@@ -339,13 +339,13 @@ std::string IConfigAdapter::MakeGroupName(
   }
   switch (filter_type_) {
     case MessageFilter::ChannelFilter:
-      name << bus_name << bus_channel_ << "_" << base_name;
+      name << bus_name << std::to_string(bus_channel_) << "_" << base_name;
       break;
 
     case MessageFilter::MessageIdFilter:
       name << bus_name;
       if (bus_channel_ > 0) {
-        name << bus_channel_;
+        name << std::to_string(bus_channel_);
       }
       name << "_" << base_name;
       name << "_" << message_id_;
-- 
2.43.0


From e1a09e6f5437cd22402bed141402dedcd2af5ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:50 +0000
Subject: [PATCH 52/56] fix: write the temporary CSV file in the destination
 directory

---
 mdf2csv/src/csvwriter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index bdb89af..c880d9b 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -20,11 +20,13 @@ CsvWriter::CsvWriter(const std::string& filename)
     parent_path_ = parent_path.string();
     name_ = fullname.filename().string();
 
-    path temp_path = temp_directory_path();
-    temp_path.append(name_);
+    // The temporary file is stored in the destination directory. It can then
+    // always be renamed and isn't shared with other conversions.
+    path temp_path = parent_path;
+    temp_path.append(name_ + ".tmp");
     temp_filename_ = temp_path.string();
 
-    if (!exists(parent_path_)) {
+    if (!parent_path_.empty() && !exists(parent_path_)) {
       create_directories(parent_path_);
     }
 
-- 
2.43.0


From 4b29b166bb4489e7e3edb48fad34d7d39fc6e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:50 +0000
Subject: [PATCH 53/56] fix: an incompletely written CSV file replaced the
 destination file

---
 mdf2csv/src/csvwriter.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index c880d9b..57cdca9 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -6,6 +6,7 @@
 #include "csvwriter.h"
 #include <filesystem>
 #include <iostream>
+#include <stdexcept>
 #include <mdf/mdflogstream.h>
 
 using namespace std::filesystem;
@@ -83,6 +84,7 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
     return;
   }
 
+  bool incomplete = false;
   try {
     file_.open(temp_filename_, std::ios::out | std::ios::trunc);
     // HEADER LINE
@@ -119,15 +121,23 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       file_ << std::endl;
     }
     file_.close();
+    if (!file_.good()) {
+      throw std::runtime_error("Failed to write the file.");
+    }
     std::filesystem::rename(temp_filename_, dest_filename_);
   } catch (const std::exception& err) {
-    MDF_ERROR() << "File save error. Error: " << err.what();
+    MDF_ERROR() << "File save error. Error: " << err.what()
+                << ", File: " << dest_filename_;
+    incomplete = true;
   }
 
   try {
     if (file_.is_open()) {
       file_.close();
     }
+    if (incomplete) {
+      remove(temp_filename_);
+    }
   } catch (const std::exception& err) {
     MDF_ERROR() << "File close error. Error: " << err.what();
   }
-- 
2.43.0


From 480109a2f813906bdcad74b564bcc8fd289bf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:50 +0000
Subject: [PATCH 54/56] fix: quotes in texts broke the fields of a CSV line

---
 mdf2csv/src/csvwriter.cpp | 25 ++++++++++++++++++-------
 mdf2csv/src/csvwriter.h   |  1 +
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/mdf2csv/src/csvwriter.cpp b/mdf2csv/src/csvwriter.cpp
index 57cdca9..b930330 100644
--- a/mdf2csv/src/csvwriter.cpp
+++ b/mdf2csv/src/csvwriter.cpp
@@ -95,11 +95,11 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
       if (count > 0) {
         file_ << delimiter_;
       }
-      file_ << "\"" << channel.Name();
+      std::string name = channel.Name();
       if (!unit.empty()) {
-        file_ << " [" << unit << "]";
+        name += " [" + unit + "]";
       }
-      file_ << "\"";
+      file_ << QuotedText(name);
       ++count;
     }
     file_ << std::endl;
@@ -145,14 +145,25 @@ void CsvWriter::Convert(ChannelObserverList& observer_list) {
 
 std::string CsvWriter::CsvText(std::string& csv_text) const {
   for (char input : csv_text) {
-    if (input == '\"' || input == delimiter_ || isspace(input)) {
-      std::ostringstream temp;
-      temp << "\"" << csv_text << "\"";
-      return temp.str();
+    if (input == '\"' || input == delimiter_ ||
+        isspace(static_cast<unsigned char>(input))) {
+      return QuotedText(csv_text);
     }
   }
 
   return csv_text;
 }
 
+std::string CsvWriter::QuotedText(const std::string& text) {
+  std::string quoted = "\"";
+  for (char input : text) {
+    if (input == '\"') {
+      quoted += '\"';  // A quote inside the text is doubled
+    }
+    quoted += input;
+  }
+  quoted += '\"';
+  return quoted;
+}
+
 } // namespace mdf
\ No newline at end of file
diff --git a/mdf2csv/src/csvwriter.h b/mdf2csv/src/csvwriter.h
index 6ac2f87..301fc63 100644
--- a/mdf2csv/src/csvwriter.h
+++ b/mdf2csv/src/csvwriter.h
@@ -30,6 +30,7 @@ class CsvWriter final {
   char delimiter_ = ';';
 
   std::string CsvText(std::string& csv_text) const;
+  static std::string QuotedText(const std::string& text);
 };
 
 }  // namespace mdf
-- 
2.43.0


From d0ab393c919d9a94ea8631650de47015f3f967ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:50 +0000
Subject: [PATCH 55/56] fix: CSV files of all MDF files were stored beside the
 first one

---
 mdf2csv/src/createfilelist.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mdf2csv/src/createfilelist.cpp b/mdf2csv/src/createfilelist.cpp
index 3adf958..8d7192a 100644
--- a/mdf2csv/src/createfilelist.cpp
+++ b/mdf2csv/src/createfilelist.cpp
@@ -70,13 +70,14 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
   const auto& arguments = ProgramArgument::Instance();
   std::string filename;
   std::string stem;
+  std::string output_path = output_path_;
 
   try {
     path fullname(file);
     filename = fullname.filename().string();
     stem = fullname.stem().string();
-    if (output_path_.empty()) {
-      output_path_ = fullname.parent_path().string();
+    if (output_path.empty()) {
+      output_path = fullname.parent_path().string();
     }
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid file path. Error :" << err.what();
@@ -148,7 +149,7 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
       bool existing; // Check if CSV already exist
       std::string csv_file;
       try {
-        path fullname(output_path_);
+        path fullname(output_path);
         fullname.append(StripName(csv_name.str()));
         fullname.concat(".csv");
         csv_file = fullname.string();
-- 
2.43.0


From 13b7a47e10b15315b2ddfc18a0c4d7d99b51c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:50 +0000
Subject: [PATCH 56/56] fix: groups with the same name were exported to the
 same CSV file

---
 mdf2csv/src/createfilelist.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdf2csv/src/createfilelist.cpp b/mdf2csv/src/createfilelist.cpp
index 8d7192a..73ec391 100644
--- a/mdf2csv/src/createfilelist.cpp
+++ b/mdf2csv/src/createfilelist.cpp
@@ -5,6 +5,7 @@
 #include "createfilelist.h"
 #include <iostream>
 #include <filesystem>
+#include <set>
 #include <sstream>
 #include <cctype>
 #include <array>
@@ -108,6 +109,7 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
     return;
   }
 
+  std::set<std::string> name_list; // CSV names in use
   size_t measure_no = 0; // Used to set a unique CSV name.
   for (auto* dg_group : dg_list) {
     if (dg_group == nullptr) {
@@ -146,6 +148,12 @@ void CreateFileList::ConvertMdfFile(const std::string& file) {
         csv_name << "_" << cg_name;
       }
 
+      // Different groups may have the same name
+      if (!name_list.emplace(StripName(csv_name.str())).second) {
+        csv_name << "_DG_" << measure_no << "_CG_" << group_no;
+        name_list.emplace(StripName(csv_name.str()));
+      }
+
       bool existing; // Check if CSV already exist
       std::string csv_file;
       try {
-- 
2.43.0

