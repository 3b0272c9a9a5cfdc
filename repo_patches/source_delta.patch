From 63b15cb4663b3e8cdc90c279f479e66c804aff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 01/93] fix: treat a Modbus exception response with code 0 as a
 refusal

An exception response (function code with the high bit set) whose exception
code is 0 was handled as a successful empty answer: a read returned no data and
a write was reported as done, although the device refused the request.
---
 src/modbus_base.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..32dc925 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -14,7 +14,7 @@ namespace
     std::string GetModbusExceptionMessage(uint8_t code)
     {
         if (code == 0) {
-            return std::string();
+            return "invalid modbus error code (0)";
         }
         // clang-format off
         const char* errs[] =
@@ -38,15 +38,6 @@ namespace
         return "invalid modbus error code (" + std::to_string(code + 1) + ")";
     }
 
-    // throws C++ exception on modbus error code
-    void ThrowIfModbusException(uint8_t code)
-    {
-        if (code == 0) {
-            return;
-        }
-        throw Modbus::TModbusExceptionError(code);
-    }
-
     bool IsWriteFunction(Modbus::EFunction function)
     {
         return function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
@@ -421,7 +412,7 @@ std::vector<uint8_t> Modbus::ExtractResponseData(EFunction requestFunction, cons
     }
 
     if (IsException(pdu[0])) {
-        ThrowIfModbusException(pdu[1]);
+        throw Modbus::TModbusExceptionError(pdu[1]);
     }
 
     auto function = GetFunction(functionCode);
-- 
2.43.0


From 7c1a35505e3f788f90cbd60eecebb9bcc2a48a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 02/93] fix: decode an escape sequence at the very end of byte
 stuffed data

DecodeByteStuffing left an escape sequence as is if no byte followed it, so
decoding did not restore data whose last byte had been escaped.
---
 src/bin_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_utils.cpp b/src/bin_utils.cpp
index b82cc30..b156a57 100644
--- a/src/bin_utils.cpp
+++ b/src/bin_utils.cpp
@@ -20,7 +20,7 @@ void BinUtils::DecodeByteStuffing(std::vector<uint8_t>& data,
             if (rule.second.empty()) {
                 throw std::invalid_argument("invalid byte stuffing rule");
             }
-            if ((static_cast<size_t>(data.end() - readIt) > rule.second.size()) &&
+            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                 std::equal(rule.second.begin(), rule.second.end(), readIt))
             {
                 *writeIt = rule.first;
-- 
2.43.0


From 1848c690a2b299cf2cb2dba20cb11b20b946dba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:01 +0000
Subject: [PATCH 03/93] fix: order firmware versions with big numbers

Comparison threw std::out_of_range for a number that does not fit into int
(a version string read from a device can hold anything), and release candidates
and wb builds with a number of 128 and more were ordered among releases
(1.2.3-rc200 was newer than 1.2.3).
---
 src/common_utils.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/common_utils.cpp b/src/common_utils.cpp
index bffc97d..a9088bf 100644
--- a/src/common_utils.cpp
+++ b/src/common_utils.cpp
@@ -2,6 +2,7 @@
 #include <algorithm>
 #include <regex>
 #include <sstream>
+#include <stdexcept>
 #include <unordered_map>
 
 namespace
@@ -9,6 +10,18 @@ namespace
     const std::unordered_map<char, std::string> ConvertToMqttStringMap =
         {{'\'', "|"}, {'"', "|"}, {'/', "|"}, {'+', "_plus_"}, {'$', "_"}, {'#', "_"}};
 
+    // Bigger numbers are treated as the maximum, e.g. if a version is read from a device with damaged memory
+    const int MAX_VERSION_NUMBER = 1000000000;
+
+    static int ParseVersionNumber(const std::string& number)
+    {
+        try {
+            return std::min(std::stoi(number), MAX_VERSION_NUMBER);
+        } catch (const std::out_of_range&) {
+            return MAX_VERSION_NUMBER;
+        }
+    }
+
     static std::vector<int> ParseVersionString(const std::string& version)
     {
         std::string buffer;
@@ -16,18 +29,18 @@ namespace
         std::vector<int> list;
         while (getline(stream, buffer, '.')) {
             if (std::regex_match(buffer, std::regex("^[0-9]+$"))) {
-                list.push_back(std::stoi(buffer));
+                list.push_back(ParseVersionNumber(buffer));
                 continue;
             }
             if (std::regex_match(buffer, std::regex("^[0-9]+(-rc|\\+wb)[0-9]+$"))) {
                 int index = buffer.find("-rc");
-                int offset = -128;
+                int offset = -MAX_VERSION_NUMBER - 1;
                 if (index < 0) {
                     index = buffer.find("+wb");
-                    offset = 128;
+                    offset = MAX_VERSION_NUMBER + 1;
                 }
-                list.push_back(std::stoi(buffer.substr(0, index)));
-                list.push_back(std::stoi(buffer.substr(index + 3)) + offset);
+                list.push_back(ParseVersionNumber(buffer.substr(0, index)));
+                list.push_back(ParseVersionNumber(buffer.substr(index + 3)) + offset);
                 continue;
             }
             list.push_back(0);
-- 
2.43.0


From 3082018a943e0461003d8963a7bf5791d2c13e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 04/93] fix: accept negative integers for unsigned registers
 with scale or offset

A published value like -1 of an unsigned register with offset -1 was refused
when written back: std::stoull wraps a negative number, so the scaled result was
out of range. The same number with a decimal point (-1.0) was accepted.
---
 src/register.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/register.cpp b/src/register.cpp
index 7e31f26..42255cd 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -528,7 +528,12 @@ template<> struct TConvertTraits<uint64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            auto res = llround((value - reg.Offset) / reg.Scale);
+            // std::stoull wraps negative numbers
+            double scaledValue = value;
+            if (str.find('-') != std::string::npos) {
+                scaledValue = std::stoll(str, nullptr, base);
+            }
+            auto res = llround((scaledValue - reg.Offset) / reg.Scale);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
-- 
2.43.0


From a0f5d4945de094cb8c7928be93b8f70baa9ea037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 05/93] fix: reject Modbus read responses with less data than
 requested

---
 src/modbus_common.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..3dc7928 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -634,6 +634,16 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // A response can be well-formed, but have less data than needed
+    void CheckReadResponseSize(int type, size_t registerCount, const std::vector<uint8_t>& pdu)
+    {
+        auto expectedSize = InferReadResponsePDUSize(type, registerCount);
+        if (pdu.size() < expectedSize) {
+            throw TMalformedResponseError("not enough data in response: " + std::to_string(pdu.size()) +
+                                          " bytes, expected " + std::to_string(expectedSize));
+        }
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
@@ -641,6 +651,13 @@ namespace Modbus // modbus protocol common utilities
                            Modbus::TRegisterCache& cache)
     {
         auto data = Modbus::ExtractResponseData(function, pdu);
+        size_t usedCount = 0;
+        for (const auto& reg: range.RegisterList()) {
+            auto config = reg->GetConfig();
+            auto index = GetUint32RegisterAddress(config->GetAddress()) - range.GetStart();
+            usedCount = std::max<size_t>(usedCount, index + GetModbusDataWidthIn16BitWords(*config));
+        }
+        CheckReadResponseSize(range.Type(), usedCount, pdu);
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1073,6 +1090,7 @@ namespace Modbus // modbus protocol common utilities
                                       frameTimeout);
 
         auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        CheckReadResponseSize(reg.Type, modbusRegisterCount, res.Pdu);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0]};
         }
-- 
2.43.0


From b098e013cc1e1c6cb71160dbc02d3ea5fad8b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:06 +0000
Subject: [PATCH 06/93] fix: do not treat a range as having holes because of a
 rejected register

---
 src/modbus_common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 3dc7928..002abb7 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -135,6 +135,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         size_t extend;
+        bool hasHoles = false;
         if (RegisterList().empty()) {
             extend = widthInWords;
         } else {
@@ -156,10 +157,8 @@ namespace Modbus // modbus protocol common utilities
                 return false;
             }
 
-            auto hasHoles = Start + Count < addr;
-            if (continuousReadEnabled) {
-                HasHolesFlg = HasHolesFlg || hasHoles;
-            } else {
+            hasHoles = Start + Count < addr;
+            if (!continuousReadEnabled) {
                 if (RegisterList().back()->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                     // Read UNKNOWN 2 byte registers one by one to find availability
                     if (!isSingleBit) {
@@ -183,7 +182,6 @@ namespace Modbus // modbus protocol common utilities
                     if (reg->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                         return false;
                     }
-                    HasHolesFlg = HasHolesFlg || hasHoles;
                 }
             }
 
@@ -216,6 +214,7 @@ namespace Modbus // modbus protocol common utilities
 
             RegisterList().push_back(reg);
             Count += extend;
+            HasHolesFlg = HasHolesFlg || hasHoles;
             return true;
         }
         if (newPollTime > pollLimit) {
-- 
2.43.0


From 3069e4d4b73c883f1570b6e79d364cfbb570f1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 07/93] fix: write setup registers preceding a partial one

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 002abb7..067752b 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -893,7 +893,7 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From 610d293c3a87edc3ef988d87922c2a2f5e88c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 08/93] fix: write partial write-only setup registers

---
 src/modbus_common.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 067752b..e5d47f8 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -837,7 +837,10 @@ namespace Modbus // modbus protocol common utilities
             TModbusRegisterRange range(std::chrono::microseconds::max());
             while (it != setupItems.end()) {
                 auto item = *it;
-                if (!item->RegisterConfig->IsPartial()) {
+                // There is nothing to read for write-only registers
+                if (!item->RegisterConfig->IsPartial() ||
+                    item->RegisterConfig->AccessType == TRegisterConfig::EAccessType::WRITE_ONLY)
+                {
                     ++it;
                     continue;
                 }
-- 
2.43.0


From ccca03024fb21f17b060a8e922694445206f2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 09/93] fix: read partial setup registers of modbus_io devices
 with address shift

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index e5d47f8..f0e9b4e 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -864,7 +864,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From 5f9950c108b5c74151462f1b6964853207a02ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 10/93] fix: do not overwrite neighbour bits by a value wider
 than its register

---
 src/modbus_common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index f0e9b4e..7961e21 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -444,6 +444,7 @@ namespace Modbus // modbus protocol common utilities
         auto width = GetModbusDataWidthIn16BitWords(reg);
         auto step = 1;
         auto updateCache = false;
+        auto mask = GetLSBMask(reg.GetDataWidth()) << reg.GetDataOffset();
 
         if (reg.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
             address = GetUint32RegisterAddress(reg.GetAddress());
@@ -460,13 +461,12 @@ namespace Modbus // modbus protocol common utilities
                 cacheAddress += step;
             }
             // Clear place for data to be written
-            valueToWrite &= ~(GetLSBMask(reg.GetDataWidth()) << reg.GetDataOffset());
+            valueToWrite &= ~mask;
             updateCache = true;
         }
 
         // Place data
-        value <<= reg.GetDataOffset();
-        valueToWrite |= value;
+        valueToWrite |= (value << reg.GetDataOffset()) & mask;
 
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-- 
2.43.0


From ebf331989b9df4ff7080dcbf0c73b83e8afbdbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 11/93] fix: write non-ASCII characters of strings to Modbus
 registers

---
 src/modbus_common.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 7961e21..12f2833 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -425,7 +425,9 @@ namespace Modbus // modbus protocol common utilities
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            words[i] = reg.Format == RegisterFormat::String8
+                           ? static_cast<uint8_t>(str[i * 2]) << 8 | static_cast<uint8_t>(str[i * 2 + 1])
+                           : static_cast<uint8_t>(str[i]);
         }
     }
 
-- 
2.43.0


From a125e6e9af148bf0b49f33df10420c1ed6888c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 12/93] fix: write partial and multiword registers one by one
 without spoiling neighbour bits

---
 src/modbus_common.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 12f2833..60cdbcf 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -507,23 +507,21 @@ namespace Modbus // modbus protocol common utilities
         return width;
     }
 
-    // Composes writing data buffer containtig single word filled with "partial" register data.
-    // Uses holding register data cache to fill data that is not affected by the new register value.
+    // Composes writing data buffer containing single word of the register value. Words are counted from the most
+    // significant one. Uses holding register data cache to fill bits that are not affected by the new register value.
     // Byte order corresponds to register settings.
     void ComposeRawSingleWriteRequestData(std::vector<uint8_t>& data,
                                           const TRegisterConfig& reg,
-                                          uint16_t value,
+                                          uint64_t value,
                                           uint8_t wordIndex,
                                           const Modbus::TRegisterCache& cache,
                                           Modbus::TRegisterCache& tmpCache)
     {
         uint16_t cachedValue = 0;
-        auto address = 0;
-        auto bitWidth = reg.GetDataWidth();
+        uint32_t address = 0;
         auto updateCache = false;
 
-        // use cache only for "partial" registers
-        if (bitWidth < 16) {
+        if (reg.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
             address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
             if (cache.count(address)) {
                 cachedValue = cache.at(address);
@@ -531,10 +529,10 @@ namespace Modbus // modbus protocol common utilities
             updateCache = true;
         }
 
-        auto bitOffset = std::max(static_cast<int32_t>(reg.GetDataOffset()) - wordIndex * 16, 0);
-        auto bitCount = std::min(static_cast<uint32_t>(16 - bitOffset), bitWidth);
-        auto mask = GetLSBMask(bitCount) << bitOffset;
-        auto valueToWrite = (~mask & cachedValue) | (mask & (value << bitOffset));
+        auto shift = (GetModbusDataWidthIn16BitWords(reg) - wordIndex - 1) * 16;
+        auto mask = GetLSBMask(reg.GetDataWidth()) << reg.GetDataOffset();
+        value = (value << reg.GetDataOffset()) & mask;
+        uint16_t valueToWrite = (cachedValue & ~(mask >> shift)) | (value >> shift);
 
         data.resize(2);
         WriteAs2Bytes(data.data(), valueToWrite, reg.ByteOrder);
@@ -762,7 +760,7 @@ namespace Modbus // modbus protocol common utilities
             auto responsePduSize = Modbus::CalcResponsePDUSize(fn, 1);
             for (size_t i = 0; i < requestsCount; ++i) {
                 auto wordIndex = requestsCount - i - 1;
-                ComposeRawSingleWriteRequestData(data, reg, static_cast<uint16_t>(val), wordIndex, cache, tmpCache);
+                ComposeRawSingleWriteRequestData(data, reg, val, wordIndex, cache, tmpCache);
                 WriteTransaction(traits,
                                  port,
                                  slaveId,
@@ -772,7 +770,9 @@ namespace Modbus // modbus protocol common utilities
                                  requestDelay,
                                  responseTimeout,
                                  frameTimeout);
-                val >>= 16;
+                for (const auto& item: tmpCache) {
+                    cache.insert_or_assign(item.first, item.second);
+                }
             }
         }
         for (const auto& item: tmpCache) {
-- 
2.43.0


From 36d8497c1eb96c0720556468ab670f5f343cc743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 13/93] fix: write strings to Modbus registers one by one

---
 src/modbus_common.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 60cdbcf..fdb3af9 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -756,11 +756,23 @@ namespace Modbus // modbus protocol common utilities
         } else {
             // Note: word order feature currently is not supported by HOLDING_SINGLE registers.
             auto requestsCount = InferWriteRequestsCount(reg);
-            auto val = value.Get<uint64_t>();
+            uint64_t val = 0;
+            std::vector<uint16_t> words;
+            if (reg.IsString()) {
+                ComposeStringWriteRequestWords(words, reg, value.Get<std::string>());
+                requestsCount = words.size();
+            } else {
+                val = value.Get<uint64_t>();
+            }
             auto responsePduSize = Modbus::CalcResponsePDUSize(fn, 1);
             for (size_t i = 0; i < requestsCount; ++i) {
                 auto wordIndex = requestsCount - i - 1;
-                ComposeRawSingleWriteRequestData(data, reg, val, wordIndex, cache, tmpCache);
+                if (reg.IsString()) {
+                    data.resize(2);
+                    WriteAs2Bytes(data.data(), words[wordIndex], reg.ByteOrder);
+                } else {
+                    ComposeRawSingleWriteRequestData(data, reg, val, wordIndex, cache, tmpCache);
+                }
                 WriteTransaction(traits,
                                  port,
                                  slaveId,
-- 
2.43.0


From 787cd8749d657e074eedd5beb0a4430a55ba563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:07 +0000
Subject: [PATCH 14/93] fix: repeat setup of a device if it fails after a
 successful request

---
 src/serial_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 4d7adb3..16dfb0b 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -117,6 +117,10 @@ void TSerialDevice::Prepare(TPort& port, TDevicePrepareMode prepareMode)
         }
     } catch (const TSerialDeviceException& ex) {
         SetTransferResult(false);
+        // Some requests could succeed, but the setup is not complete and must be repeated
+        if (deviceWasDisconnected && ConnectionState == TDeviceConnectionState::CONNECTED) {
+            SetDisconnected();
+        }
         throw;
     }
 }
-- 
2.43.0


From 2cb7af96c076111d78f03f88d3307c1b88fe52f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 15/93] fix: consider a device connected after a successful
 exchange if disconnection is disabled

---
 src/serial_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 16dfb0b..fa9624d 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -210,7 +210,7 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
 void TSerialDevice::SetTransferResult(bool ok)
 {
     // disable reconnect functionality option
-    if (_DeviceConfig->DeviceTimeout.count() < 0 || _DeviceConfig->DeviceMaxFailCycles < 0) {
+    if (!ok && (_DeviceConfig->DeviceTimeout.count() < 0 || _DeviceConfig->DeviceMaxFailCycles < 0)) {
         return;
     }
 
-- 
2.43.0


From 7960806b4e2c6ec4c3187eb79ab62dc9059b723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 16/93] fix: don't count a successful cycle as a failed one

The port was closed after connection_max_fail_cycles - 1 failed cycles.
---
 src/port/port.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 1af3987..6fd5825 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -85,9 +85,7 @@ void TPortOpenCloseLogic::CloseIfNeeded(PPort port, bool allPreviousDataExchange
     if (!allPreviousDataExchangeWasFailed) {
         LastSuccessfulCycle = currentTime;
         RemainingFailCycles = Settings.ConnectionMaxFailCycles;
-    }
-
-    if (RemainingFailCycles > 0) {
+    } else if (RemainingFailCycles > 0) {
         --RemainingFailCycles;
     }
 
-- 
2.43.0


From f6b770f0b85548dbbba1d558f9b134ebc05ecafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 17/93] fix: respect deadlines of registers while a device is
 disconnected

A pause before the next attempt to reach a disconnected device could be shorter
than min_request_interval_ms or read rate limit of its registers.
---
 src/serial_client_register_poller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 76ba24d..2218af3 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -143,7 +143,7 @@ void TSerialClientRegisterPoller::ScheduleNextPoll(PPollableDevice device, stead
         if (device->GetDevice()->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
             delay = device->GetDisconnectedPollDelay();
             if (delay.count()) {
-                deadline = currentTime + delay;
+                deadline = std::max(deadline, currentTime + delay);
                 LOG(Debug) << "Device " << device->GetDevice()->ToString() << " poll delayed for " << delay.count()
                            << " ms";
             }
-- 
2.43.0


From 3ab6d194794db5e862a8b5308d01a7b20c29d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 18/93] fix: read low priority registers with long response
 time

A register with expected read time more than 100 ms was read only on time balancing
if there was any high priority register, even if the port was idle.
---
 src/pollable_device.cpp               |  6 ++----
 src/pollable_device.h                 |  2 +-
 src/serial_client_register_poller.cpp | 11 +++++++----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 057d43b..af848e9 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -33,16 +33,14 @@ TPollableDevice::TPollableDevice(PSerialDevice device,
 
 PRegisterRange TPollableDevice::ReadRegisterRange(TFeaturePort& port,
                                                   std::chrono::milliseconds pollLimit,
-                                                  bool readAtLeastOneRegister,
+                                                  std::chrono::milliseconds firstRegisterPollLimit,
                                                   const util::TSpentTimeMeter& sessionTime,
                                                   TSerialClientDeviceAccessHandler& lastAccessedDevice)
 {
     auto currentTime = sessionTime.GetStartTime();
     auto registerRange = Device->CreateRegisterRange();
     while (Registers.HasReadyItems(currentTime)) {
-        const auto limit = (readAtLeastOneRegister && registerRange->RegisterList().empty())
-                               ? std::chrono::milliseconds::max()
-                               : pollLimit;
+        const auto limit = registerRange->RegisterList().empty() ? firstRegisterPollLimit : pollLimit;
         const auto& item = Registers.GetTop();
         if (!registerRange->Add(port, item.Data, limit)) {
             break;
diff --git a/src/pollable_device.h b/src/pollable_device.h
index 5ef6b1f..8db6a83 100644
--- a/src/pollable_device.h
+++ b/src/pollable_device.h
@@ -24,7 +24,7 @@ public:
 
     PRegisterRange ReadRegisterRange(TFeaturePort& port,
                                      std::chrono::milliseconds pollLimit,
-                                     bool readAtLeastOneRegister,
+                                     std::chrono::milliseconds firstRegisterPollLimit,
                                      const util::TSpentTimeMeter& sessionTime,
                                      TSerialClientDeviceAccessHandler& lastAccessedDevice);
 
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 2218af3..9defaf0 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -48,13 +48,16 @@ namespace
                 return false;
             }
 
-            pollLimit = std::min(MaxPollTime, pollLimit);
-            if (policy != TItemAccumulationPolicy::Force) {
-                ReadAtLeastOneRegister = false;
+            // A register can exceed MaxPollTime to be read at all,
+            // but it must not delay high priority registers if it is not forced by the scheduler
+            auto firstRegisterPollLimit = std::min(MaxPollTime, pollLimit);
+            if (ReadAtLeastOneRegister) {
+                firstRegisterPollLimit = (policy == TItemAccumulationPolicy::Force) ? milliseconds::max() : pollLimit;
             }
+            pollLimit = std::min(MaxPollTime, pollLimit);
 
             RegisterRange =
-                device->ReadRegisterRange(Port, pollLimit, ReadAtLeastOneRegister, SessionTime, LastAccessedDevice);
+                device->ReadRegisterRange(Port, pollLimit, firstRegisterPollLimit, SessionTime, LastAccessedDevice);
             Device = device;
             return !RegisterRange->RegisterList().empty();
         }
-- 
2.43.0


From 2ccdce57366674f164cbc4edba0827ddf36f9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 19/93] fix: don't let a device without available registers
 block polling

If all waiting registers of a device were unavailable, the poller considered that it had not
enough time to read them and never proceeded to next devices.
---
 src/pollable_device.cpp               |  5 +++++
 src/pollable_device.h                 |  2 ++
 src/serial_client_register_poller.cpp | 10 +++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index af848e9..1c0934e 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -121,6 +121,11 @@ bool TPollableDevice::HasRegisters() const
     return !Registers.IsEmpty();
 }
 
+bool TPollableDevice::HasReadyRegisters(std::chrono::steady_clock::time_point currentTime) const
+{
+    return Registers.HasReadyItems(currentTime);
+}
+
 void TPollableDevice::RescheduleAllRegisters()
 {
     for (const auto& reg: Device->GetRegisters()) {
diff --git a/src/pollable_device.h b/src/pollable_device.h
index 8db6a83..f4fdecd 100644
--- a/src/pollable_device.h
+++ b/src/pollable_device.h
@@ -42,6 +42,8 @@ public:
 
     bool HasRegisters() const;
 
+    bool HasReadyRegisters(std::chrono::steady_clock::time_point currentTime) const;
+
     void RescheduleAllRegisters();
 };
 
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 9defaf0..6af6541 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -59,7 +59,8 @@ namespace
             RegisterRange =
                 device->ReadRegisterRange(Port, pollLimit, firstRegisterPollLimit, SessionTime, LastAccessedDevice);
             Device = device;
-            return !RegisterRange->RegisterList().empty();
+            // A device without registers to read (e.g. all of them are unavailable) must not block other devices
+            return !RegisterRange->RegisterList().empty() || !device->HasReadyRegisters(SessionTime.GetStartTime());
         }
 
         PRegisterRange GetRegisterRange() const
@@ -240,6 +241,13 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
         return res;
     }
 
+    // All waiting registers are unavailable, the device is already removed from the scheduler
+    if (range->RegisterList().empty() && !reader.GetDevice()->HasReadyRegisters(spentTime.GetStartTime())) {
+        ScheduleNextPoll(reader.GetDevice(), spentTime.GetStartTime());
+        res.Deadline = GetDeadline(lowPriorityRateLimitIsExceeded, spentTime);
+        return res;
+    }
+
     // There are registers waiting read, but they don't fit in allowed poll limit
     if (range->RegisterList().empty()) {
         res.NotEnoughTime = true;
-- 
2.43.0


From 145cbc72566fa7aa10dbf570f36ef15f9dd156af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 20/93] fix: don't starve other devices by registers of a
 disconnected one

Registers returned to polling after disconnection got a deadline in the distant past
and were always read before registers of other devices.
---
 src/pollable_device.cpp               |  4 ++--
 src/pollable_device.h                 |  2 +-
 src/serial_client_register_poller.cpp | 10 +++++-----
 src/serial_client_register_poller.h   |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 1c0934e..1567bf9 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -126,7 +126,7 @@ bool TPollableDevice::HasReadyRegisters(std::chrono::steady_clock::time_point cu
     return Registers.HasReadyItems(currentTime);
 }
 
-void TPollableDevice::RescheduleAllRegisters()
+void TPollableDevice::RescheduleAllRegisters(std::chrono::steady_clock::time_point deadline)
 {
     for (const auto& reg: Device->GetRegisters()) {
         if ((Priority == TPriority::High && reg->GetConfig()->IsHighPriority()) ||
@@ -136,7 +136,7 @@ void TPollableDevice::RescheduleAllRegisters()
                 if (reg->IsExcludedFromPolling() && !Registers.Contains(reg)) {
                     reg->SetAvailable(TRegisterAvailability::UNKNOWN);
                     reg->IncludeInPolling();
-                    Registers.AddEntry(reg, std::chrono::steady_clock::time_point());
+                    Registers.AddEntry(reg, deadline);
                 }
             }
         }
diff --git a/src/pollable_device.h b/src/pollable_device.h
index f4fdecd..bb59c0b 100644
--- a/src/pollable_device.h
+++ b/src/pollable_device.h
@@ -44,7 +44,7 @@ public:
 
     bool HasReadyRegisters(std::chrono::steady_clock::time_point currentTime) const;
 
-    void RescheduleAllRegisters();
+    void RescheduleAllRegisters(std::chrono::steady_clock::time_point deadline);
 };
 
 typedef std::shared_ptr<TPollableDevice> PPollableDevice;
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 6af6541..ea89509 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -164,7 +164,7 @@ void TSerialClientRegisterPoller::ClosedPortCycle(steady_clock::time_point curre
 {
     Scheduler.ResetLoadBalancing();
 
-    RescheduleDisconnectedDevices();
+    RescheduleDisconnectedDevices(currentTime);
     RescheduleDevicesWithSpendedPoll(currentTime);
 
     std::unique_lock lock(Mutex);
@@ -212,7 +212,7 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
                                                        TSerialClientDeviceAccessHandler& lastAccessedDevice,
                                                        TRegisterCallback callback)
 {
-    RescheduleDisconnectedDevices();
+    RescheduleDisconnectedDevices(spentTime.GetStartTime());
     RescheduleDevicesWithSpendedPoll(spentTime.GetStartTime());
 
     std::unique_lock lock(Mutex);
@@ -310,7 +310,7 @@ void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
 
     auto range = Devices.equal_range(device);
     for (auto it = range.first; it != range.second; ++it) {
-        it->second->RescheduleAllRegisters();
+        it->second->RescheduleAllRegisters(steady_clock::time_point());
         Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
     }
 
@@ -347,14 +347,14 @@ std::string TThrottlingStateLogger::GetMessage()
     return std::string();
 }
 
-void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
+void TSerialClientRegisterPoller::RescheduleDisconnectedDevices(steady_clock::time_point currentTime)
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
-            it->second->RescheduleAllRegisters();
+            it->second->RescheduleAllRegisters(currentTime);
             Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
         }
     }
diff --git a/src/serial_client_register_poller.h b/src/serial_client_register_poller.h
index 8493395..5d2139e 100644
--- a/src/serial_client_register_poller.h
+++ b/src/serial_client_register_poller.h
@@ -56,7 +56,7 @@ private:
     std::chrono::steady_clock::time_point GetDeadline(bool lowPriorityRateLimitIsExceeded,
                                                       const util::TSpentTimeMeter& spentTime) const;
     void OnDeviceConnectionStateChanged(PSerialDevice device);
-    void RescheduleDisconnectedDevices();
+    void RescheduleDisconnectedDevices(std::chrono::steady_clock::time_point currentTime);
     void RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime);
 
     std::mutex Mutex;
-- 
2.43.0


From 01313569c54cce786135d505adf3a1c257e222a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 21/93] fix: write once if max_write_fail_time_s is 0

The time limit was compared in whole seconds with '>', so with
max_write_fail_time_s = 0 writing was repeated for one more second, though only
one attempt is documented.
---
 src/register_handler.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index c8b0c98..223430b 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -34,9 +34,7 @@ void TRegisterHandler::HandleWriteErrorRetryWrite(const TRegisterValue& tempValu
             WriteFirstTryTime = steady_clock::now();
         }
         WriteFail = true;
-        if (duration_cast<seconds>(steady_clock::now() - WriteFirstTryTime) >
-            Reg->Device()->DeviceConfig()->MaxWriteFailTime)
-        {
+        if (steady_clock::now() - WriteFirstTryTime >= Reg->Device()->DeviceConfig()->MaxWriteFailTime) {
             Dirty = (tempValue != ValueToSet);
             WriteFail = false;
         }
@@ -81,9 +79,7 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
         WriteFirstTryTime = steady_clock::now();
         WriteFail = true;
     }
-    if (duration_cast<seconds>(steady_clock::now() - WriteFirstTryTime) >
-        Reg->Device()->DeviceConfig()->MaxWriteFailTime)
-    {
+    if (steady_clock::now() - WriteFirstTryTime >= Reg->Device()->DeviceConfig()->MaxWriteFailTime) {
         Dirty = false;
         WriteFail = false;
         return false;
-- 
2.43.0


From 261dbd2488b3d3a6a892eeabdad1c8a50845a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 22/93] fix: give every commanded value its own retry time,
 drop invalid ones

A value commanded while writing of a previous one was failing inherited its
retry time and could be given up at once. An invalid text marked the register
as having a value to write, so the previous value was written again after the
next failure.
---
 src/register_handler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index 223430b..cfd921f 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -90,8 +90,10 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
 void TRegisterHandler::SetTextValue(const std::string& v)
 {
     std::lock_guard<std::mutex> lock(SetValueMutex);
-    Dirty = true;
     ValueToSet = ConvertToRawValue(*Reg->GetConfig(), v);
+    Dirty = true;
+    // The retry time of the previous value doesn't limit the new one
+    WriteFail = false;
 }
 
 PRegister TRegisterHandler::Register() const
-- 
2.43.0


From c5c01ebc0f9630a842509a22a83367ad5747eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 23/93] fix: stop retrying to write to a device which session
 can't be opened

max_write_fail_time_s was ignored if preparation of a device failed, so a value
could be written hours later.
---
 src/write_channel_serial_client_task.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write_channel_serial_client_task.cpp b/src/write_channel_serial_client_task.cpp
index 3f1d4d7..8fdc648 100644
--- a/src/write_channel_serial_client_task.cpp
+++ b/src/write_channel_serial_client_task.cpp
@@ -48,6 +48,9 @@ ISerialClientTask::TRunResult TWriteChannelSerialClientTask::Run(PFeaturePort po
         Handler->Flush(*port);
     } else {
         Handler->Register()->SetError(TRegister::TError::WriteError);
+        if (!Handler->NeedRetryAfterWriteFail()) {
+            LOG(Warn) << Handler->Register()->ToString() << " register write cancelled: failed to open session";
+        }
     }
     if (Handler->Register()->GetErrorState().test(TRegister::TError::WriteError)) {
         if (ErrorCallback) {
-- 
2.43.0


From 79457f54489c6718504a583b3ee888d451b74c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 24/93] fix: let writing connect to a device with write only
 registers

A device without polled registers could never return from the disconnected
state: nothing was read from it and writing to a disconnected device was
refused.
---
 src/write_channel_serial_client_task.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/write_channel_serial_client_task.cpp b/src/write_channel_serial_client_task.cpp
index 8fdc648..8d7207d 100644
--- a/src/write_channel_serial_client_task.cpp
+++ b/src/write_channel_serial_client_task.cpp
@@ -1,8 +1,24 @@
 #include "write_channel_serial_client_task.h"
 #include "log.h"
 
+#include <algorithm>
+
 #define LOG(logger) logger.Log() << "[serial client] "
 
+namespace
+{
+    // Polling detects that a disconnected device is available again.
+    // If nothing is polled, writing is the only way to find it out.
+    bool IsDisconnectedPolledDevice(const TSerialDevice& device)
+    {
+        const auto& regs = device.GetRegisters();
+        return device.GetConnectionState() == TDeviceConnectionState::DISCONNECTED &&
+               std::any_of(regs.begin(), regs.end(), [](const PRegister& reg) {
+                   return reg->GetConfig()->AccessType != TRegisterConfig::EAccessType::WRITE_ONLY;
+               });
+    }
+}
+
 TWriteChannelSerialClientTask::TWriteChannelSerialClientTask(PRegisterHandler handler,
                                                              TRegisterCallback readCallback,
                                                              TRegisterCallback errorCallback)
@@ -20,7 +36,7 @@ ISerialClientTask::TRunResult TWriteChannelSerialClientTask::Run(PFeaturePort po
     }
 
     if (!port->IsOpen() || !Handler->Register()->IsSupported() ||
-        Handler->Register()->Device()->GetConnectionState() == TDeviceConnectionState::DISCONNECTED)
+        IsDisconnectedPolledDevice(*Handler->Register()->Device()))
     {
         Handler->Register()->SetError(TRegister::TError::WriteError);
         if (ErrorCallback) {
-- 
2.43.0


From 04d90fa875ede803eaca9feb6657ef3093c2afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 25/93] fix: string registers are polled, an event can't hold
 their value

---
 src/serial_client_events_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index ba3e4a7..b43ed6f 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -352,7 +352,10 @@ void TSerialClientEventsReader::SetDevices(const std::list<PSerialDevice>& devic
 {
     for (const auto& dev: devices) {
         for (const auto& reg: dev->GetRegisters()) {
-            if (reg->GetConfig()->SporadicMode != TRegisterConfig::TSporadicMode::DISABLED) {
+            // An event holds a number, strings can only be polled
+            if (reg->GetConfig()->SporadicMode != TRegisterConfig::TSporadicMode::DISABLED &&
+                !reg->GetConfig()->IsString())
+            {
                 auto dev = ToModbusDevice(reg->Device().get());
                 if (dev != nullptr) {
                     TEventsReaderRegisterDesc regDesc{
-- 
2.43.0


From 1c318e9bbb2f80498fc7fd39067cc72d8672e401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 26/93] fix: a bit field gets its own bits from an event

---
 src/serial_client_events_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index b43ed6f..c0a8d29 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -1,4 +1,5 @@
 #include "serial_client_events_reader.h"
+#include "bin_utils.h"
 #include "common_utils.h"
 #include "log.h"
 #include "serial_device.h"
@@ -149,7 +150,10 @@ class TModbusExtEventsVisitor: public ModbusExt::IEventsVisitor
             uint64_t value = 0;
             memcpy(&value, data, std::min(dataSize, sizeof(value)));
             for (auto reg: regArray->second) {
-                reg->SetValue(TRegisterValue(value));
+                // Several registers can be parts of the same modbus register
+                auto config = reg->GetConfig();
+                reg->SetValue(TRegisterValue((value >> config->GetDataOffset()) &
+                                             BinUtils::GetLSBMask(config->GetDataWidth())));
                 RegisterChangedCallback(reg);
             }
         } else {
-- 
2.43.0


From b083ea97bc22d3df924c3b921bb74e94180acab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 27/93] fix: a request of events always leaves room for one
 event

---
 src/modbus_ext_common.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 0c19402..9dfab99 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -121,10 +121,11 @@ namespace ModbusExt // modbus extension protocol declarations
         if (maxBytes > RTU_MAX_PACKET_SIZE) {
             maxBytes = RTU_MAX_PACKET_SIZE;
         }
-        if (maxBytes <= PDU_EVENTS_RESPONSE_HEADER_SIZE + PDU_EVENT_MAX_SIZE) {
+        const auto overhead = PDU_EVENTS_RESPONSE_HEADER_SIZE + CRC_SIZE + RTU_HEADER_SIZE;
+        if (maxBytes <= overhead + PDU_EVENT_MAX_SIZE) {
             return PDU_EVENT_MAX_SIZE;
         }
-        maxBytes -= PDU_EVENTS_RESPONSE_HEADER_SIZE + CRC_SIZE + RTU_HEADER_SIZE;
+        maxBytes -= overhead;
         return static_cast<uint8_t>(maxBytes);
     }
 
-- 
2.43.0


From 8b2e6cd10f9e0418c76728e8c659e4273dbb001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 28/93] fix: check the size of the answer to the request of
 enabling events

---
 src/modbus_ext_common.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 9dfab99..1206747 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -394,6 +394,12 @@ namespace ModbusExt // modbus extension protocol declarations
             throw Modbus::TMalformedResponseError("invalid sub command");
         }
 
+        if (res.Pdu.size() <
+            PDU_ENABLE_EVENTS_RESPONSE_DATA_POS + res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS])
+        {
+            throw Modbus::TMalformedResponseError("invalid packet size: " + std::to_string(res.Pdu.size()));
+        }
+
         TBitIterator dataIt(res.Pdu.data() + PDU_ENABLE_EVENTS_RESPONSE_DATA_POS - 1,
                             res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]);
 
-- 
2.43.0


From f0a1a482732c15af6c7979fd981437e4acea8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 29/93] fix: mercury200: check size and CRC of the received
 frame, not of the bytes after it

---
 src/devices/mercury200_device.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/devices/mercury200_device.cpp b/src/devices/mercury200_device.cpp
index 67667e3..39180d4 100644
--- a/src/devices/mercury200_device.cpp
+++ b/src/devices/mercury200_device.cpp
@@ -11,6 +11,7 @@ namespace
     const size_t RESPONSE_BUF_LEN = 100;
     const size_t REQUEST_LEN = 7;
     const ptrdiff_t HEADER_SZ = 5;
+    const ptrdiff_t CRC_SZ = 2;
 
     const TRegisterTypes RegisterTypes{{0, "param8", "value", U8, true},
                                        {0, "param16", "value", BCD16, true},
@@ -54,20 +55,20 @@ std::vector<uint8_t> TMercury200Device::ExecCommand(TPort& port, uint8_t cmd)
         return it->second;
     }
 
-    uint8_t buf[100] = {0x00};
+    uint8_t buf[RESPONSE_BUF_LEN] = {0x00};
     auto readn = RequestResponse(port, SlaveId, cmd, buf);
-    if (readn < 4) { // fixme 4
+    if (readn < HEADER_SZ + CRC_SZ) {
         throw TSerialDeviceTransientErrorException("mercury200: read frame too short for command response");
     }
     if (IsBadHeader(SlaveId, cmd, buf)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad response header for command");
     }
-    if (IsCrcValid(buf, readn)) {
+    if (!IsCrcValid(buf, readn - CRC_SZ)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad CRC for command");
     }
     uint8_t* payload = buf + HEADER_SZ;
     std::vector<uint8_t> result = {0};
-    result.assign(payload, payload + readn - HEADER_SZ);
+    result.assign(payload, payload + readn - HEADER_SZ - CRC_SZ);
     return CmdResultCache.insert({cmd, result}).first->second;
 }
 
@@ -93,7 +94,7 @@ bool TMercury200Device::IsCrcValid(uint8_t* buf, int sz) const
 {
     auto actual_crc = CRC16::CalculateCRC16(buf, static_cast<uint16_t>(sz));
     uint16_t sent_crc = ((uint16_t)buf[sz] << 8) | ((uint16_t)buf[sz + 1]);
-    return actual_crc != sent_crc;
+    return actual_crc == sent_crc;
 }
 
 int TMercury200Device::RequestResponse(TPort& port, uint32_t slave, uint8_t cmd, uint8_t* response) const
-- 
2.43.0


From 12c9e391bae3a3cd60afbb23bf68323b1994fbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 30/93] fix: milur: recognize exceptions in answers with 4-byte
 addresses

---
 src/devices/milur_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/devices/milur_device.cpp b/src/devices/milur_device.cpp
index fda9f3b..e304af6 100644
--- a/src/devices/milur_device.cpp
+++ b/src/devices/milur_device.cpp
@@ -70,12 +70,12 @@ bool TMilurDevice::ConnectionSetup(TPort& port)
 
 TEMDevice::ErrorType TMilurDevice::CheckForException(uint8_t* frame, int len, const char** message)
 {
-    if (len != 6 || !(frame[1] & 0x80)) {
+    if (len != 5 + SlaveIdWidth || !(frame[SlaveIdWidth] & 0x80)) {
         *message = 0;
         return TEMDevice::NO_ERROR;
     }
 
-    switch (frame[2]) {
+    switch (frame[SlaveIdWidth + 1]) {
         case 0x01:
             *message = "Illegal function";
             break;
-- 
2.43.0


From 7e206307bca7ef7b15746f7850e6e0339c3ba733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 31/93] fix: milur: no sign extension of unsigned 32-bit values

---
 src/devices/milur_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/milur_device.cpp b/src/devices/milur_device.cpp
index e304af6..d1649f9 100644
--- a/src/devices/milur_device.cpp
+++ b/src/devices/milur_device.cpp
@@ -170,7 +170,7 @@ uint64_t TMilurDevice::BuildIntVal(uint8_t* p, int sz) const
 {
     uint64_t r = 0;
     for (int i = 0; i < sz; ++i) {
-        r += p[i] << (i * 8);
+        r += static_cast<uint64_t>(p[i]) << (i * 8);
     }
     return r;
 }
-- 
2.43.0


From 7e18880faabc67259390ec05177a3d1ef51c85f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 32/93] fix: mercury230, milur: don't repeat a request forever
 if the meter closes a session right after opening

---
 src/devices/em_device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/devices/em_device.cpp b/src/devices/em_device.cpp
index 493ed81..39390ca 100644
--- a/src/devices/em_device.cpp
+++ b/src/devices/em_device.cpp
@@ -85,9 +85,13 @@ void TEMDevice::Talk(TPort& port,
     EnsureSlaveConnected(port);
     WriteCommand(port, cmd, payload, payload_len);
     try {
-        while (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+        if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
             EnsureSlaveConnected(port, true);
             WriteCommand(port, cmd, payload, payload_len);
+            if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+                ConnectedSlaves.erase(SlaveId);
+                throw TSerialDeviceTransientErrorException("session is closed right after opening");
+            }
         }
     } catch (const TSerialDeviceTransientErrorException& e) {
         port.SkipNoise();
-- 
2.43.0


From 3b356dddd85cb19683bce02cc422d4e0eb414c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 33/93] fix: ivtm: report an error on a response with invalid
 hex digits

---
 src/devices/ivtm_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/devices/ivtm_device.cpp b/src/devices/ivtm_device.cpp
index eea57fd..8197689 100644
--- a/src/devices/ivtm_device.cpp
+++ b/src/devices/ivtm_device.cpp
@@ -66,6 +66,9 @@ bool TIVTMDevice::DecodeASCIIBytes(uint8_t* buf, uint8_t* result, uint8_t len_by
 
 uint8_t TIVTMDevice::DecodeASCIIByte(uint8_t* buf)
 {
+    if (!isxdigit(buf[0]) || !isxdigit(buf[1])) {
+        throw TSerialDeviceTransientErrorException("invalid hex digit in response");
+    }
     std::string s(buf, buf + 2);
     return stoul(s, nullptr, 16);
 }
-- 
2.43.0


From 27efecb591107d9c300c563c9575171351758f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 34/93] fix: ivtm: values of registers narrower or wider than 4
 bytes, unsigned 32-bit values

---
 src/devices/ivtm_device.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/devices/ivtm_device.cpp b/src/devices/ivtm_device.cpp
index 8197689..43a41e9 100644
--- a/src/devices/ivtm_device.cpp
+++ b/src/devices/ivtm_device.cpp
@@ -132,14 +132,21 @@ TRegisterValue TIVTMDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
 
     auto addr = GetUint32RegisterAddress(reg.GetAddress());
     WriteCommand(port, SlaveId, addr, reg.GetByteWidth());
-    uint8_t response[4];
+    uint8_t response[sizeof(uint64_t)] = {0};
+    if (reg.GetByteWidth() > sizeof(response)) {
+        throw TSerialDeviceException("ivtm: register is too wide");
+    }
     ReadResponse(port, SlaveId, response, reg.GetByteWidth());
 
     uint8_t* p = response; //&response[(address % 2) * 4];
 
     // the response is little-endian. We inverse the byte order here to make it big-endian.
 
-    return TRegisterValue{static_cast<uint64_t>((p[3] << 24) | (p[2] << 16) | (p[1] << 8) | p[0])};
+    uint64_t value = 0;
+    for (size_t i = reg.GetByteWidth(); i-- > 0;) {
+        value = (value << 8) | p[i];
+    }
+    return TRegisterValue{value};
 }
 
 #if 0
-- 
2.43.0


From df6e145198ddcaf7554639d1fca4772eb0267210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 35/93] fix: lls: check size of a response, no sign extension
 of unsigned 32-bit values

---
 src/devices/lls_device.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/devices/lls_device.cpp b/src/devices/lls_device.cpp
index 0ede103..6a3e070 100644
--- a/src/devices/lls_device.cpp
+++ b/src/devices/lls_device.cpp
@@ -62,6 +62,7 @@ namespace
     const size_t RESPONSE_BUF_LEN = 100;
     const size_t REQUEST_LEN = 4;
     const ptrdiff_t HEADER_SZ = 3;
+    const ptrdiff_t CRC_SZ = 1;
     const uint8_t REQUEST_PREFIX = 0x31;
     const uint8_t RESPONSE_PREFIX = 0x3E;
 }
@@ -85,6 +86,9 @@ std::vector<uint8_t> TLLSDevice::ExecCommand(TPort& port, uint8_t cmd)
     port.SleepSinceLastInteraction(GetFrameTimeout(port));
 
     int len = port.ReadFrame(buf, RESPONSE_BUF_LEN, GetResponseTimeout(port), GetFrameTimeout(port)).Count;
+    if (len < HEADER_SZ + CRC_SZ) {
+        throw TSerialDeviceTransientErrorException("frame too short");
+    }
     if (buf[0] != RESPONSE_PREFIX) {
         throw TSerialDeviceTransientErrorException("invalid response prefix");
     }
@@ -100,7 +104,7 @@ std::vector<uint8_t> TLLSDevice::ExecCommand(TPort& port, uint8_t cmd)
 
     uint8_t* payload = buf + HEADER_SZ;
     std::vector<uint8_t> result = {0};
-    result.assign(payload, payload + len - HEADER_SZ);
+    result.assign(payload, payload + len - HEADER_SZ - CRC_SZ);
     return CmdResultCache.insert({cmd, result}).first->second;
 }
 
@@ -109,9 +113,13 @@ TRegisterValue TLLSDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
     uint8_t cmd = GetUint32RegisterAddress(reg.GetAddress());
     auto result = ExecCommand(port, cmd);
 
-    int result_buf[8] = {};
+    if (result.size() < reg.GetDataOffset() + reg.GetByteWidth()) {
+        throw TSerialDeviceException("lls: register address is out of range");
+    }
+
+    uint64_t result_buf[8] = {};
 
-    for (uint32_t i = 0; i < reg.GetByteWidth(); ++i) {
+    for (uint32_t i = 0; i < reg.GetByteWidth() && i < 8; ++i) {
         result_buf[i] = result[reg.GetDataOffset() + i];
     }
 
-- 
2.43.0


From 750bb10cb09f4b2250b2ed917daad8fdf4222943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 36/93] fix: pulsar: new request number after a failed request

---
 src/devices/pulsar_device.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/devices/pulsar_device.cpp b/src/devices/pulsar_device.cpp
index 0004cc2..53075f1 100644
--- a/src/devices/pulsar_device.cpp
+++ b/src/devices/pulsar_device.cpp
@@ -196,10 +196,9 @@ TRegisterValue TPulsarDevice::ReadDataRegister(TPort& port, const TRegisterConfi
     uint32_t mask = 1 << addr;
 
     // send data request and receive response
-    WriteDataRequest(port, SlaveId, mask, RequestID);
-    ReadResponse(port, SlaveId, payload, reg.GetByteWidth(), RequestID);
-
-    ++RequestID;
+    const auto id = RequestID++;
+    WriteDataRequest(port, SlaveId, mask, id);
+    ReadResponse(port, SlaveId, payload, reg.GetByteWidth(), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, reg.GetByteWidth(), false)};
@@ -211,10 +210,9 @@ TRegisterValue TPulsarDevice::ReadSysTimeRegister(TPort& port, const TRegisterCo
     uint8_t payload[6];
 
     // send system time request and receive response
-    WriteSysTimeRequest(port, SlaveId, RequestID);
-    ReadResponse(port, SlaveId, payload, sizeof(payload), RequestID);
-
-    ++RequestID;
+    const auto id = RequestID++;
+    WriteSysTimeRequest(port, SlaveId, id);
+    ReadResponse(port, SlaveId, payload, sizeof(payload), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, sizeof(payload), false)};
-- 
2.43.0


From 90fad4e0377fd0c84360020392e081797478c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 37/93] fix: pulsar: function code of system time request

---
 src/devices/pulsar_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/pulsar_device.cpp b/src/devices/pulsar_device.cpp
index 53075f1..d104cd1 100644
--- a/src/devices/pulsar_device.cpp
+++ b/src/devices/pulsar_device.cpp
@@ -132,7 +132,7 @@ void TPulsarDevice::WriteSysTimeRequest(TPort& port, uint32_t addr, uint16_t id)
     WriteBCD(addr, buf, sizeof(uint32_t), true);
 
     /* sys time request => F == 4, L == 10 */
-    buf[4] = 1;
+    buf[4] = 4;
     buf[5] = 10;
 
     /* request ID */
-- 
2.43.0


From 17d69969a076e48f30b17ee174fd3e866d6fb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 38/93] fix: s2k: check numbers of relay and config in
 responses

---
 src/devices/s2k_device.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/devices/s2k_device.cpp b/src/devices/s2k_device.cpp
index 3a4bc9a..325a9e3 100644
--- a/src/devices/s2k_device.cpp
+++ b/src/devices/s2k_device.cpp
@@ -99,7 +99,10 @@ void TS2KDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, cons
     if (response[5] != CrcS2K(response, 5)) {
         throw TSerialDeviceTransientErrorException("bad CRC for 0x15 command");
     }
-    RelayState[response[3]] = response[4];
+    if (response[3] != (uint8_t)addr) {
+        throw TSerialDeviceTransientErrorException("wrong relay number in response for 0x15 command");
+    }
+    RelayState[addr] = response[4];
 }
 
 TRegisterValue TS2KDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
@@ -134,6 +137,9 @@ TRegisterValue TS2KDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
             if (response[5] != CrcS2K(response, 5)) {
                 throw TSerialDeviceTransientErrorException("bad CRC for 0x5 command");
             }
+            if (response[3] != command[4]) {
+                throw TSerialDeviceTransientErrorException("wrong config number in response for 0x5 command");
+            }
             return TRegisterValue{response[4]};
         }
         default:
-- 
2.43.0


From adf8301e57dbb3cb32c0632c3e69de85bc5e85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 39/93] fix: energomera_ce: don't take answers of other meters
 and to other requests

---
 src/devices/energomera_ce_device.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/devices/energomera_ce_device.cpp b/src/devices/energomera_ce_device.cpp
index 0881d2f..9f68c94 100644
--- a/src/devices/energomera_ce_device.cpp
+++ b/src/devices/energomera_ce_device.cpp
@@ -25,7 +25,9 @@ namespace
     const size_t MAX_RESPONSE_SIZE = (PACKET_ENVELOPE_SIZE + RESPONSE_HEADER_SIZE + MAX_PAYLOAD_SIZE) * 2;
     const size_t MIN_RESPONSE_SIZE = PACKET_ENVELOPE_SIZE + RESPONSE_HEADER_SIZE + 1;
 
+    const size_t RESPONSE_SRC_ADDR_POS = 4;
     const size_t RESPONSE_SERV_POS = 6;
+    const size_t RESPONSE_CMD_POS = 7;
     const size_t RESPONSE_DATA_POS = 9;
 
     const size_t ENERGY_RESPONSE_DATA_SIZE = 7;
@@ -108,7 +110,7 @@ namespace
         return data;
     }
 
-    void CheckResponse(std::vector<uint8_t>& data)
+    void CheckResponse(const std::vector<uint8_t>& data, uint16_t addr, const std::vector<uint8_t>& command)
     {
         if (data.size() < MIN_RESPONSE_SIZE) {
             throw TSerialDeviceTransientErrorException("frame too short");
@@ -119,6 +121,12 @@ namespace
         if (CalcCrc(data.begin() + 1, data.end() - 2) != *(data.end() - 2)) {
             throw TSerialDeviceTransientErrorException("invalid CRC");
         }
+        if (GetFrom<uint16_t>(data.begin() + RESPONSE_SRC_ADDR_POS) != addr) {
+            throw TSerialDeviceTransientErrorException("invalid slave addr in response");
+        }
+        if (!std::equal(data.begin() + RESPONSE_CMD_POS, data.begin() + RESPONSE_DATA_POS, command.begin())) {
+            throw TSerialDeviceTransientErrorException("invalid command code in response");
+        }
         if (((data[RESPONSE_SERV_POS] >> 4) & 0x7) == CLASS_ACCESS_ERROR) {
             throw TSerialDeviceTransientErrorException("error in response, code: " +
                                                        WBMQTT::HexDump(&data[RESPONSE_DATA_POS], 1));
@@ -189,9 +197,9 @@ TEnergomeraCeDevice::TEnergomeraCeDevice(PDeviceConfig config, PProtocol protoco
 
 TRegisterValue TEnergomeraCeDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
 {
-    auto request = MakePacket(SlaveId,
-                              DeviceConfig()->Password,
-                              MakeCommandFromRegisterAddress(GetUint32RegisterAddress(reg.GetAddress())));
+    auto command = MakeCommandFromRegisterAddress(GetUint32RegisterAddress(reg.GetAddress()));
+    auto request = MakePacket(SlaveId, DeviceConfig()->Password, command);
+    port.SkipNoise();
     port.WriteBytes(request.data(), request.size());
     std::vector<uint8_t> response(MAX_RESPONSE_SIZE);
     auto res = port.ReadFrame(response.data(),
@@ -201,7 +209,7 @@ TRegisterValue TEnergomeraCeDevice::ReadRegisterImpl(TPort& port, const TRegiste
                               FrameComplete);
     response.resize(res.Count);
     DecodeByteStuffing(response, BYTE_STUFFING_RULES);
-    CheckResponse(response);
+    CheckResponse(response, SlaveId, command);
     switch (reg.Type) {
         case TEnergomeraCeRegisterType::DEFAULT:
             return GetValue(response);
-- 
2.43.0


From 174b9e0f89c215f56bb2be6077cd4c2f596d581b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 40/93] fix: energomera_iec: several channels with the same
 address

---
 src/devices/energomera_iec_device.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index f1db199..c005c2b 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -51,6 +51,14 @@ namespace
                 if (HasOtherDeviceAndType(reg)) {
                     return false;
                 }
+                // A response has only one value for an address
+                for (const auto& other: RegisterList()) {
+                    if (GetUint32RegisterAddress(other->GetConfig()->GetAddress()) ==
+                        GetUint32RegisterAddress(reg->GetConfig()->GetAddress()))
+                    {
+                        return false;
+                    }
+                }
                 RegisterList().push_back(reg);
             }
             return true;
-- 
2.43.0


From e035044b0f4992297da8914947705d037991e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 41/93] fix: energomera_iec: long requests are cut

---
 src/devices/energomera_iec_device.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index c005c2b..43d673b 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -130,24 +130,17 @@ namespace
         // request looks like this:
         //  Write [Energomera]:/?00000211!<SOH>R1<STX>GROUP(1001(1)1004(1)1008(1)4001(7))<ETX>
 
-        char buf[128] = {};
-        // 4(header) + 1(crc)
-        char cmd_part[sizeof(buf) - 5] = {};
-        // 11 bytes of header
-        char query_part[sizeof(cmd_part) - 11] = {};
+        std::string query_part;
         for (const auto& kv: range.ParamMasks) {
-            snprintf(query_part + strlen(query_part),
-                     sizeof(query_part) - strlen(query_part),
-                     "%04hX(%hX)",
-                     kv.first,
-                     kv.second);
+            char param[16];
+            snprintf(param, sizeof(param), "%04hX(%hX)", kv.first, kv.second);
+            query_part += param;
         }
 
-        snprintf(cmd_part, sizeof(cmd_part), "R1\x02GROUP(%s)\x03", query_part);
-        snprintf(buf, sizeof(buf), "/?%s!\x01%s", slaveId.data(), cmd_part);
-        // place checksum in place of trailing null byte
-        buf[strlen(buf)] = IEC::Calc7BitCrc((uint8_t*)(&cmd_part[0]), strlen(cmd_part));
-        IEC::WriteBytes(port, (uint8_t*)buf, strlen(buf), LOG_PREFIX);
+        std::string cmd_part = "R1\x02GROUP(" + query_part + ")\x03";
+        std::string buf = "/?" + slaveId + "!\x01" + cmd_part;
+        buf += static_cast<char>(IEC::Calc7BitCrc((const uint8_t*)cmd_part.data(), cmd_part.size()));
+        IEC::WriteBytes(port, buf, LOG_PREFIX);
     }
 
     /* @returns: null-terminated char* string which is a part of the input buffer.
-- 
2.43.0


From 56a54de980b3d4395b29c74a2acd8423fdb5a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 42/93] fix: neva: report an error on a response without values

---
 src/devices/neva_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/neva_device.cpp b/src/devices/neva_device.cpp
index 0ac0c44..2e8c48f 100644
--- a/src/devices/neva_device.cpp
+++ b/src/devices/neva_device.cpp
@@ -81,7 +81,7 @@ TRegisterValue TNevaDevice::GetRegisterValue(const TRegisterConfig& reg, const s
     std::string value(v.substr(1, v.size() - 2));
     std::vector<double> result(5);
     int ret = sscanf(value.c_str(), "%lf,%lf,%lf,%lf,%lf", &result[0], &result[1], &result[2], &result[3], &result[4]);
-    result.resize(ret);
+    result.resize(std::max(ret, 0));
 
     size_t val_index = RegisterTypeValueIndices[reg.TypeName];
 
-- 
2.43.0


From 6c229198a0014be36fc4b493f14ad08db2ed97aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:16 +0000
Subject: [PATCH 43/93] fix: IEC 61107 mode C: restore port settings if a
 session is not opened

---
 src/iec_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/iec_common.cpp b/src/iec_common.cpp
index 70d4da9..920ccfd 100644
--- a/src/iec_common.cpp
+++ b/src/iec_common.cpp
@@ -208,6 +208,7 @@ void TIEC61107ModeCDevice::PrepareImpl(TPort& port)
         if (sessionIsOpen) {
             SendEndSession(port);
         }
+        port.ResetSerialPortSettings(); // Return old port settings
         throw;
     }
 }
-- 
2.43.0


From 786ef91ed7a4c623ab42ca04c54482df5caea487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:55 +0000
Subject: [PATCH 44/93] fix: pulsar: check function code of a response

---
 src/devices/pulsar_device.cpp | 22 +++++++++++++++++-----
 src/devices/pulsar_device.h   |  2 +-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/devices/pulsar_device.cpp b/src/devices/pulsar_device.cpp
index d104cd1..05eb009 100644
--- a/src/devices/pulsar_device.cpp
+++ b/src/devices/pulsar_device.cpp
@@ -7,6 +7,9 @@
 
 namespace
 {
+    const uint8_t READ_DATA_FUNCTION = 1;
+    const uint8_t READ_SYSTIME_FUNCTION = 4;
+
     const TRegisterTypes RegisterTypes{{TPulsarDevice::REG_DEFAULT, "default", "value", Double, true},
                                        {TPulsarDevice::REG_SYSTIME, "systime", "value", U64, true}};
 }
@@ -106,7 +109,7 @@ void TPulsarDevice::WriteDataRequest(TPort& port, uint32_t addr, uint32_t mask,
     WriteBCD(addr, buf, sizeof(uint32_t), true);
 
     /* data request => F == 1, L == 14 */
-    buf[4] = 1;
+    buf[4] = READ_DATA_FUNCTION;
     buf[5] = 14;
 
     /* data mask in little-endian */
@@ -132,7 +135,7 @@ void TPulsarDevice::WriteSysTimeRequest(TPort& port, uint32_t addr, uint16_t id)
     WriteBCD(addr, buf, sizeof(uint32_t), true);
 
     /* sys time request => F == 4, L == 10 */
-    buf[4] = 4;
+    buf[4] = READ_SYSTIME_FUNCTION;
     buf[5] = 10;
 
     /* request ID */
@@ -145,7 +148,12 @@ void TPulsarDevice::WriteSysTimeRequest(TPort& port, uint32_t addr, uint16_t id)
     port.WriteBytes(buf, 10);
 }
 
-void TPulsarDevice::ReadResponse(TPort& port, uint32_t addr, uint8_t* payload, size_t size, uint16_t id)
+void TPulsarDevice::ReadResponse(TPort& port,
+                                 uint32_t addr,
+                                 uint8_t function,
+                                 uint8_t* payload,
+                                 size_t size,
+                                 uint16_t id)
 {
     const int exp_size = size + 10; /* payload size + service bytes */
     std::vector<uint8_t> response(exp_size);
@@ -177,6 +185,10 @@ void TPulsarDevice::ReadResponse(TPort& port, uint32_t addr, uint8_t* payload, s
     if (addr_recv != addr)
         throw TSerialDeviceTransientErrorException("slave address mismatch");
 
+    /* check function, F == 0 is an error response */
+    if (response[4] != function)
+        throw TSerialDeviceTransientErrorException("function code mismatch");
+
     /* check request ID */
     uint16_t id_recv = ReadHex(&response[nread - 4], sizeof(uint16_t), false);
     if (id_recv != id)
@@ -198,7 +210,7 @@ TRegisterValue TPulsarDevice::ReadDataRegister(TPort& port, const TRegisterConfi
     // send data request and receive response
     const auto id = RequestID++;
     WriteDataRequest(port, SlaveId, mask, id);
-    ReadResponse(port, SlaveId, payload, reg.GetByteWidth(), id);
+    ReadResponse(port, SlaveId, READ_DATA_FUNCTION, payload, reg.GetByteWidth(), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, reg.GetByteWidth(), false)};
@@ -212,7 +224,7 @@ TRegisterValue TPulsarDevice::ReadSysTimeRegister(TPort& port, const TRegisterCo
     // send system time request and receive response
     const auto id = RequestID++;
     WriteSysTimeRequest(port, SlaveId, id);
-    ReadResponse(port, SlaveId, payload, sizeof(payload), id);
+    ReadResponse(port, SlaveId, READ_SYSTIME_FUNCTION, payload, sizeof(payload), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, sizeof(payload), false)};
diff --git a/src/devices/pulsar_device.h b/src/devices/pulsar_device.h
index 967c3d1..8a7186a 100644
--- a/src/devices/pulsar_device.h
+++ b/src/devices/pulsar_device.h
@@ -34,7 +34,7 @@ private:
     void WriteDataRequest(TPort& port, uint32_t addr, uint32_t mask, uint16_t id);
     void WriteSysTimeRequest(TPort& port, uint32_t addr, uint16_t id);
 
-    void ReadResponse(TPort& port, uint32_t addr, uint8_t* payload, size_t size, uint16_t id);
+    void ReadResponse(TPort& port, uint32_t addr, uint8_t function, uint8_t* payload, size_t size, uint16_t id);
 
     TRegisterValue ReadDataRegister(TPort& port, const TRegisterConfig& reg);
     TRegisterValue ReadSysTimeRegister(TPort& port, const TRegisterConfig& reg);
-- 
2.43.0


From 34f70fc0f9ebb33c5aed0186228f777fda04bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 45/93] fix: energomera_iec: report an error on a response that
 breaks off inside a value

---
 src/devices/energomera_iec_device.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index 43d673b..29c2372 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -185,15 +185,17 @@ namespace
             // consume reg values
             for (const auto& reg: regs) {
                 double resp_val;
+                nread = 0; // it isn't set if there is no closing bracket
                 ret = sscanf(presp, "(%lf)%n", &resp_val, &nread);
-                if (ret >= 1) {
+                if (ret >= 1 && nread > 0) {
                     presp += nread;
                     reg->SetValue(TRegisterValue{CopyDoubleToUint64(resp_val)});
                 } else {
                     // consume error message instead
                     int err_num;
+                    nread = 0;
                     ret = sscanf(presp, "(E%d)%n", &err_num, &nread);
-                    if (ret >= 1) {
+                    if (ret >= 1 && nread > 0) {
                         reg->SetError(TRegister::TError::ReadError);
                         presp += nread;
 
-- 
2.43.0


From d646beda8d8499bd0bd5b274804a62b1a8830248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 46/93] fix: a_ok: check size, head code and checksum of a
 status response

---
 src/devices/curtains/a_ok_device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index 71123b3..d7a3ec1 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -122,6 +122,11 @@ TRegisterValue Aok::TDevice::GetCachedResponse(TPort& port,
         req.Data = MakeRequest(MotorId, LowChannelId, HighChannelId, command, data);
         req.ResponseSize = MOTOR_STATUS_RESPONSE_SIZE;
         auto resp = ExecCommand(port, req);
+        if (resp.size() != MOTOR_STATUS_RESPONSE_SIZE || resp.front() != RESPONSE ||
+            resp.back() != CalcCrc({resp.begin() + MOTOR_ID_POS, resp.end() - CRC_SIZE}))
+        {
+            throw TSerialDeviceTransientErrorException("Malformed response");
+        }
         // some tabular motors can answer any request,
         // so check that motor id in the response matches the requested one
         if (resp[MOTOR_ID_POS] != MotorId || resp[LOW_CHANNEL_ID_POS] != LowChannelId ||
-- 
2.43.0


From 416868e9c97c8072db188ea44041054840c13f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 47/93] fix: a_ok: settings read before writing a zone bit are
 reused after it

---
 src/devices/curtains/a_ok_device.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index d7a3ec1..ddc7a1a 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -211,6 +211,8 @@ void Aok::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, co
             auto addr = GetUint32RegisterAddress(reg.GetWriteAddress());
             TRegisterValue val =
                 GetCachedResponse(port, CURTAIN_MOTOR_STATUS, CURTAIN_MOTOR_STATUS, MOTOR_STATUS_ZONEBIT_OFFSET * 8, 8);
+            // The setting is about to be changed
+            InvalidateReadCache();
             TRequest req;
             req.Data = MakeRequest(MotorId,
                                    LowChannelId,
-- 
2.43.0


From e30a4fc6ce6c1c3a04f4b79a07a5e87af3c55b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 48/93] fix: dooya: check the response to setting an angle

---
 src/devices/curtains/dooya_device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/devices/curtains/dooya_device.cpp b/src/devices/curtains/dooya_device.cpp
index 65e2ea2..6599f07 100644
--- a/src/devices/curtains/dooya_device.cpp
+++ b/src/devices/curtains/dooya_device.cpp
@@ -190,7 +190,11 @@ void Dooya::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             return;
         }
         case ANGLE: {
-            ExecCommand(port, MakeSetAngleRequest(SlaveId, value));
+            auto resp = ExecCommand(port, MakeSetAngleRequest(SlaveId, value));
+            Check(SlaveId, RESPONSE_SIZE, CONTROL, SET_POSITION, resp);
+            if (resp.size() == RESPONSE_SIZE && resp[DATA_POSITION] == 0xFF) {
+                throw TSerialDeviceInternalErrorException("device can't execute command");
+            }
             return;
         }
     }
-- 
2.43.0


From 7601f048a86c7c26b9fb03a9388f07ea5045fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 49/93] fix: somfy: settings with a write address can't be
 written

---
 src/devices/curtains/somfy_sdn_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index a445772..0e86f19 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -271,7 +271,7 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             return;
         }
         case PARAM: {
-            auto requestHeader = GetUint32RegisterAddress(reg.GetWriteAddress());
+            auto requestHeader = GetUint32RegisterAddress(reg.GetAddress());
             auto it = WriteCache.find(requestHeader);
             if (it == WriteCache.end()) {
                 throw TSerialDeviceTransientErrorException("Register " + reg.ToString() +
-- 
2.43.0


From e5aced72584fe7e0efebacd8fc4a8949e02b99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 50/93] fix: somfy: writing a setting shorter than the
 register's format corrupts memory

---
 src/devices/curtains/somfy_sdn_device.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 0e86f19..8bacc91 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -280,9 +280,12 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             auto writeHeader = GetUint32RegisterAddress(reg.GetWriteAddress());
             auto data = MakeDataForSetupCommand(writeHeader, it->second);
             size_t width = (reg.GetDataWidth() == 0) ? RegisterFormatByteWidth(reg.Format) * 8 : reg.GetDataWidth();
-            CopyBytes(std::next(data.begin(), reg.GetDataOffset() / 8),
-                      std::next(data.begin(), (reg.GetDataOffset() + width) / 8),
-                      ToArray(value));
+            size_t begin = reg.GetDataOffset() / 8;
+            size_t end = std::min((reg.GetDataOffset() + width) / 8, data.size());
+            if (begin >= end) {
+                throw TSerialDeviceTransientErrorException("Register " + reg.ToString() + " is out of received data");
+            }
+            CopyBytes(std::next(data.begin(), begin), std::next(data.begin(), end), ToArray(value));
             Check(SlaveId, ACK, ExecCommand(port, MakeRequest(writeHeader, SlaveId, NodeType, data)));
             WriteCache[requestHeader] = data;
             return;
-- 
2.43.0


From 06cd61e7389579a55bc4c423c793da83e83d6c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 51/93] fix: somfy: responses shorter than a header are
 accepted

---
 src/devices/curtains/somfy_sdn_device.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 8bacc91..12cfe58 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -51,8 +51,7 @@ namespace
 
     void Check(uint32_t address, uint8_t header, const std::vector<uint8_t>& bytes)
     {
-        size_t len = GetLen(bytes[1]);
-        if (bytes.size() < 2 || bytes.size() != len) {
+        if (bytes.size() < DATA_POS + CRC_SIZE || bytes.size() != GetLen(bytes[1])) {
             throw TSerialDeviceTransientErrorException("Bad response size");
         }
 
@@ -63,7 +62,7 @@ namespace
             throw TSerialDeviceTransientErrorException("Bad CRC");
         }
         if (bytes[0] != header) {
-            if (bytes[0] == Somfy::NACK) {
+            if (bytes[0] == Somfy::NACK && bytes.size() > DATA_POS + CRC_SIZE) {
                 throw TSerialDeviceInternalErrorException("NACK: " + std::to_string(static_cast<int>(bytes[DATA_POS])));
             }
             throw TSerialDeviceTransientErrorException("Bad header");
-- 
2.43.0


From 471de96a20af6231013baffb170d05af9bd1e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 52/93] fix: somfy: drop late responses before a request

---
 src/devices/curtains/somfy_sdn_device.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 12cfe58..170b8dd 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -211,6 +211,7 @@ Somfy::TDevice::TDevice(PDeviceConfig config,
 std::vector<uint8_t> Somfy::TDevice::ExecCommand(TPort& port, const std::vector<uint8_t>& request)
 {
     port.SleepSinceLastInteraction(GetFrameTimeout(port));
+    port.SkipNoise();
     port.WriteBytes(request);
     std::vector<uint8_t> respBytes(MAX_RESPONSE_SIZE);
     auto bytesRead = port.ReadFrame(respBytes.data(),
-- 
2.43.0


From c6a7abce8de19a8c67552f34875c0432a6ce2433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 53/93] fix: windeco: drop late responses before a request

---
 src/devices/curtains/windeco_device.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/devices/curtains/windeco_device.cpp b/src/devices/curtains/windeco_device.cpp
index 376a30d..105e51f 100644
--- a/src/devices/curtains/windeco_device.cpp
+++ b/src/devices/curtains/windeco_device.cpp
@@ -81,6 +81,7 @@ WinDeco::TDevice::TDevice(PDeviceConfig config, PProtocol protocol)
 std::vector<uint8_t> WinDeco::TDevice::ExecCommand(TPort& port, const std::vector<uint8_t>& request)
 {
     port.SleepSinceLastInteraction(GetFrameTimeout(port));
+    port.SkipNoise();
     port.WriteBytes(request);
     std::vector<uint8_t> respBytes(PACKET_SIZE);
     auto bytesRead =
-- 
2.43.0


From b455219fd3096f17f5fe5bab309d043af9bdeb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 54/93] fix: dooya: drop late responses before a request

---
 src/devices/curtains/dooya_device.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/devices/curtains/dooya_device.cpp b/src/devices/curtains/dooya_device.cpp
index 6599f07..e6fff71 100644
--- a/src/devices/curtains/dooya_device.cpp
+++ b/src/devices/curtains/dooya_device.cpp
@@ -126,6 +126,7 @@ Dooya::TDevice::TDevice(PDeviceConfig config, PProtocol protocol)
 
 std::vector<uint8_t> Dooya::TDevice::ExecCommand(TPort& port, const TRequest& request)
 {
+    port.SkipNoise();
     port.WriteBytes(request.Data);
     // Reserve extra space for packets with errors
     // Example: Open command good response, 7 bytes: 55 01 01 03 01 b9 00
-- 
2.43.0


From e3b726281e4bdc5d8dd3a38b3f0d2cc5ccb6a77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 55/93] fix: somfy: more than 8 bytes of data in a response
 corrupt values

---
 src/devices/curtains/somfy_sdn_device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 170b8dd..267b813 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -316,7 +316,8 @@ TRegisterValue Somfy::TDevice::GetCachedResponse(TPort& port,
     } else {
         auto req = MakeRequest(requestHeader, SlaveId, NodeType);
         auto data = ParseStatusReport(SlaveId, responseHeader, ExecCommand(port, req));
-        val.Set(Get<uint64_t>(data.begin(), data.end()));
+        // Some motors send more data than the protocol requires
+        val.Set(Get<uint64_t>(data.begin(), data.begin() + std::min(data.size(), sizeof(uint64_t))));
         DataCache[requestHeader] = val;
         WriteCache[requestHeader] = data;
     }
-- 
2.43.0


From 5986ea0afb3ade445bbbaae21591275f34a7b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 56/93] fix: templates: cyclic subdevices are not detected

---
 src/templates_map.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 18784d2..4fd8a38 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -38,13 +38,13 @@ namespace
         }
     }
 
-    void CheckNesting(const Json::Value& root, size_t nestingLevel, TSubDevicesTemplateMap& templates)
+    void CheckNesting(const Json::Value& device, size_t nestingLevel, TSubDevicesTemplateMap& templates)
     {
         if (nestingLevel > 5) {
             throw TConfigParserException(
                 "Too deep subdevices nesting. This could be caused by cyclic subdevice dependencies");
         }
-        for (const auto& ch: root["device"]["channels"]) {
+        for (const auto& ch: device["channels"]) {
             if (ch.isMember("device_type")) {
                 CheckNesting(templates.GetTemplate(ch["device_type"].asString()).Schema, nestingLevel + 1, templates);
             }
@@ -245,7 +245,7 @@ namespace
         // Check that channels refer to valid subdevices and they are not nested too deep
         if (root["device"].isMember("subdevices")) {
             TSubDevicesTemplateMap subdevices(root["device_type"].asString(), root["device"]);
-            CheckNesting(root, 0, subdevices);
+            CheckNesting(root["device"], 0, subdevices);
         }
     }
 
-- 
2.43.0


From 8dc39e1922ea7ccbe0b2c1642507f0574e3b4597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 57/93] fix: templates: a valid template file is lost after
 upload of a template with wrong translations

---
 src/templates_map.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 4fd8a38..4afe218 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -412,6 +412,8 @@ void TTemplateMap::ValidateTemplate(const Json::Value& templateRoot)
         throw std::runtime_error("Device templates schema is not loaded");
     }
     ValidateDeviceTemplate(templateRoot, *Validator);
+    // Parts used during loading, but not described in the schema, for example translations, also must be correct
+    MakeTemplateFromJson(templateRoot, std::string());
 }
 
 PDeviceTemplate TTemplateMap::FindUserDefinedTemplate(const std::string& deviceType)
-- 
2.43.0


From fc0a8e900ad0786466eb65bc05440fa6611791f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 58/93] fix: config: fractional part of min and max is lost if
 they are strings

---
 src/serial_config.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index 2e56862..b193931 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -3,11 +3,13 @@
 #include "json_common.h"
 #include "log.h"
 
+#include <algorithm>
 #include <cstdlib>
 #include <dirent.h>
 #include <fstream>
 #include <memory>
 #include <set>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <sys/sysinfo.h>
@@ -82,6 +84,17 @@ namespace
         if (!v.isString()) {
             throw TConfigParserException(title + ": number or '0x..' hex string expected");
         }
+        auto str = v.asString();
+        if (str.find_first_of("xX") == std::string::npos) {
+            // decimal numbers can have a fractional part separated by '.' or ','
+            std::replace(str.begin(), str.end(), ',', '.');
+            std::istringstream stream(str);
+            stream.imbue(std::locale::classic());
+            double res;
+            if (stream >> res && stream.eof()) {
+                return res;
+            }
+        }
         return GetIntFromString(v.asString(), title);
     }
 
-- 
2.43.0


From 446cf3382a0044cd59bd6624dbba3a5e68edf935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 59/93] fix: config: error_value and unsupported_value greater
 than 0xFFFFFFFF are refused if they are numbers

---
 src/serial_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index b193931..1e31416 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -100,11 +100,11 @@ namespace
 
     uint64_t ToUint64(const Json::Value& v, const string& title)
     {
-        if (v.isUInt()) {
+        if (v.isUInt64()) {
             return v.asUInt64();
         }
 
-        if (v.isInt()) {
+        if (v.isInt64()) {
             auto val = v.asInt64();
             if (val >= 0) {
                 return val;
-- 
2.43.0


From d2e9ad12802ee0d2615b8be3fa71ab06ca0ff606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 60/93] fix: config: settings of a channel are refused if a
 template has several channels with its name

---
 src/config_schema_generator.cpp                   | 5 +++--
 src/subdevices_config/config_schema_generator.cpp | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/config_schema_generator.cpp b/src/config_schema_generator.cpp
index 47e11f3..a272f4e 100644
--- a/src/config_schema_generator.cpp
+++ b/src/config_schema_generator.cpp
@@ -109,7 +109,8 @@ namespace
     //  {
     //      "type": "array",
     //      "items": {
-    //          "oneOf": [
+    //          Templates can have several channels with the same name and different conditions
+    //          "anyOf": [
     //              CHANNELS_SCHEMAS,
     //              CUSTOM_CHANNELS_SCHEMA
     //          ]
@@ -121,7 +122,7 @@ namespace
         std::vector<std::string> names;
 
         r["type"] = "array";
-        auto& items = MakeArray("oneOf", r["items"]);
+        auto& items = MakeArray("anyOf", r["items"]);
         for (const auto& channel: channels) {
             auto channelSchema = MakeTabChannelSchema(channel);
             items.append(channelSchema);
diff --git a/src/subdevices_config/config_schema_generator.cpp b/src/subdevices_config/config_schema_generator.cpp
index 9e40647..2110296 100644
--- a/src/subdevices_config/config_schema_generator.cpp
+++ b/src/subdevices_config/config_schema_generator.cpp
@@ -185,7 +185,8 @@ namespace
     //  {
     //      "type": "array",
     //      "items": {
-    //          "oneOf": [
+    //          Templates can have several channels with the same name and different conditions
+    //          "anyOf": [
     //              CHANNELS_SCHEMAS,
     //              CUSTOM_CHANNELS_SCHEMA
     //          ]
@@ -197,7 +198,7 @@ namespace
         std::vector<std::string> names;
 
         r["type"] = "array";
-        auto& items = MakeArray("oneOf", r["items"]);
+        auto& items = MakeArray("anyOf", r["items"]);
         for (const auto& channel: channels) {
             auto channelSchema = MakeTabChannelSchema(channel);
             items.append(channelSchema);
@@ -259,7 +260,7 @@ namespace
 
         if (subdeviceTemplate.Schema.isMember("channels")) {
             res["properties"]["channels"]["type"] = "array";
-            auto& items = MakeArray("oneOf", res["properties"]["channels"]["items"]);
+            auto& items = MakeArray("anyOf", res["properties"]["channels"]["items"]);
             for (const auto& channel: subdeviceTemplate.Schema["channels"]) {
                 items.append(MakeTabChannelSchema(channel));
             }
-- 
2.43.0


From 12f23286658e2b126c5acbb880e747cda8abc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 61/93] fix: config: custom channels with write_address only
 are refused in devices with templates

---
 src/config_schema_generator.cpp                   | 2 ++
 src/subdevices_config/config_schema_generator.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/config_schema_generator.cpp b/src/config_schema_generator.cpp
index a272f4e..7eb5463 100644
--- a/src/config_schema_generator.cpp
+++ b/src/config_schema_generator.cpp
@@ -73,6 +73,7 @@ namespace
     //                      "properties": {
     //                          "name": { "type": "string" },
     //                          "address": { "not": {} },
+    //                          "write_address": { "not": {} },
     //                          "consists_of": { "not": {} }
     //                      }
     //                  }
@@ -96,6 +97,7 @@ namespace
         Json::Value oldChannels;
         oldChannels["properties"]["name"]["type"] = "string";
         oldChannels["properties"]["address"]["not"] = Json::Value(Json::objectValue);
+        oldChannels["properties"]["write_address"]["not"] = Json::Value(Json::objectValue);
         oldChannels["properties"]["consists_of"]["not"] = Json::Value(Json::objectValue);
         oneOf.append(std::move(oldChannels));
 
diff --git a/src/subdevices_config/config_schema_generator.cpp b/src/subdevices_config/config_schema_generator.cpp
index 2110296..5542f7a 100644
--- a/src/subdevices_config/config_schema_generator.cpp
+++ b/src/subdevices_config/config_schema_generator.cpp
@@ -149,6 +149,7 @@ namespace
     //                      "properties": {
     //                          "name": { "type": "string" },
     //                          "address": { "not": {} },
+    //                          "write_address": { "not": {} },
     //                          "consists_of": { "not": {} }
     //                      }
     //                  }
@@ -172,6 +173,7 @@ namespace
         Json::Value oldChannels;
         oldChannels["properties"]["name"]["type"] = "string";
         oldChannels["properties"]["address"]["not"] = Json::Value(Json::objectValue);
+        oldChannels["properties"]["write_address"]["not"] = Json::Value(Json::objectValue);
         oldChannels["properties"]["consists_of"]["not"] = Json::Value(Json::objectValue);
         oneOf.append(std::move(oldChannels));
 
-- 
2.43.0


From 0c4c7d598e562b54169e338a5a3a5b2e554d9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 62/93] fix: config: devices with subdevices are refused if
 parameters are declared by an array

---
 src/subdevices_config/config_schema_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subdevices_config/config_schema_generator.cpp b/src/subdevices_config/config_schema_generator.cpp
index 5542f7a..7686eef 100644
--- a/src/subdevices_config/config_schema_generator.cpp
+++ b/src/subdevices_config/config_schema_generator.cpp
@@ -219,7 +219,7 @@ namespace
         if (deviceTemplate.isMember("parameters")) {
             const auto& params = deviceTemplate["parameters"];
             for (Json::ValueConstIterator it = params.begin(); it != params.end(); ++it) {
-                auto name = it.name();
+                auto name = params.isArray() ? (*it)["id"].asString() : it.name();
                 if (properties.isMember(name)) {
                     throw std::runtime_error("Validation failed.\nError 1\n  context: <root>\n  desc: "
                                              "duplicate definition of parameter \"" +
-- 
2.43.0


From 7a6397ff44b75388f7da33a5a0d5d2e149ce1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 63/93] fix: config: enabled, hidden and condition of a
 subdevice are ignored

---
 src/config_merge_template.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config_merge_template.cpp b/src/config_merge_template.cpp
index ee3e8f5..4c91bff 100644
--- a/src/config_merge_template.cpp
+++ b/src/config_merge_template.cpp
@@ -202,6 +202,9 @@ Json::Value MergeChannelConfigWithTemplate(const Json::Value& channelConfig,
     SetIfExists(res, "shift", channelConfig, "shift");
     SetIfExists(res, "stride", channelConfig, "stride");
     SetIfExists(res, "id", channelConfig, "id");
+    SetIfExists(res, "enabled", channelConfig, "enabled");
+    SetIfExists(res, "hidden", channelConfig, "hidden");
+    SetIfExists(res, "condition", channelConfig, "condition");
     AppendSetupItems(res, channelConfig);
     UpdateChannels(res["channels"],
                    channelConfig["channels"],
-- 
2.43.0


From 3f920c5267fbf00fd184083b5f37c8239574c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:35 +0000
Subject: [PATCH 64/93] fix: config: titles of enum values are prefixed with
 names of subdevices

---
 src/serial_config.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index 1e31416..e960b50 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -385,9 +385,12 @@ namespace
             if (channel_data.isMember("enum_titles")) {
                 const auto& enumTitles = channel_data["enum_titles"];
                 if (enumValues.size() == enumTitles.size()) {
+                    // Titles of values must not be prefixed with subdevice's name
+                    TLoadingContext enumContext(context.factory, context.device_base_address);
+                    enumContext.translations = context.translations;
                     for (Json::ArrayIndex i = 0; i < enumValues.size(); ++i) {
                         channel->SetEnumTitles(enumValues[i].asString(),
-                                               Translate(enumTitles[i].asString(), true, context));
+                                               Translate(enumTitles[i].asString(), true, enumContext));
                     }
                 } else {
                     LOG(Warn) << errorMsgPrefix << ": enum and enum_titles should have the same size -- "
-- 
2.43.0


From 411aed32ee107214ec2bceca1f8da310d2cfd8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 65/93] fix: refuse RPC requests with a slave id, an address or
 a count out of range instead of truncating them

---
 src/rpc/rpc_device_load_config_task.h               | 2 +-
 src/rpc/rpc_device_probe_task.cpp                   | 2 +-
 src/rpc/rpc_port_load_modbus_serial_client_task.cpp | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.h b/src/rpc/rpc_device_load_config_task.h
index 3a59419..19ff3f7 100644
--- a/src/rpc/rpc_device_load_config_task.h
+++ b/src/rpc/rpc_device_load_config_task.h
@@ -3,7 +3,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
diff --git a/src/rpc/rpc_device_probe_task.cpp b/src/rpc/rpc_device_probe_task.cpp
index c496dde..f660f7d 100644
--- a/src/rpc/rpc_device_probe_task.cpp
+++ b/src/rpc/rpc_device_probe_task.cpp
@@ -8,7 +8,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
diff --git a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
index 97b4ecc..443ae9f 100644
--- a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
+++ b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
@@ -7,7 +7,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
@@ -17,7 +17,7 @@ template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
 
 template<> bool inline WBMQTT::JSON::Is<uint16_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFFFF;
 }
 
 template<> inline uint16_t WBMQTT::JSON::As<uint16_t>(const Json::Value& value)
@@ -31,7 +31,7 @@ template<> bool inline WBMQTT::JSON::Is<Modbus::EFunction>(const Json::Value& va
         return false;
     }
     auto fun = value.asUInt();
-    return Modbus::IsSupportedFunction(fun & 0xFF);
+    return fun <= 0xFF && Modbus::IsSupportedFunction(fun);
 }
 
 template<> inline Modbus::EFunction WBMQTT::JSON::As<Modbus::EFunction>(const Json::Value& value)
-- 
2.43.0


From b0b80c469d361887d4c16629f23b525065e3e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 66/93] fix: refuse port/Load messages with characters that are
 not hexadecimal digits

---
 src/rpc/rpc_port_load_request.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rpc/rpc_port_load_request.cpp b/src/rpc/rpc_port_load_request.cpp
index 04e432d..584c583 100644
--- a/src/rpc/rpc_port_load_request.cpp
+++ b/src/rpc/rpc_port_load_request.cpp
@@ -24,6 +24,11 @@ std::vector<uint8_t> HexStringToByteVector(const std::string& hexString)
     }
 
     for (size_t i = 0; i < hexString.size(); i += 2) {
+        if (!isxdigit(static_cast<unsigned char>(hexString[i])) ||
+            !isxdigit(static_cast<unsigned char>(hexString[i + 1])))
+        {
+            throw std::runtime_error("Hex message has not hexadecimal characters");
+        }
         auto byte = strtol(hexString.substr(i, 2).c_str(), NULL, 16);
         byteVector.push_back(byte);
     }
-- 
2.43.0


From 6ce6a6f86125548875e471c4a401bdfef6f4d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 67/93] fix: RPC requests to devices with hexadecimal slave ids
 were sent to address 0

---
 src/rpc/rpc_helpers.cpp      | 4 ++--
 src/rpc/rpc_port_handler.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index df0f4da..b46921e 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -48,7 +48,7 @@ Json::Value LoadRPCRequestSchema(const std::string& schemaFilePath, const std::s
 
 void ReadModbusRegister(TPort& port, TRPCDeviceRequest& request, PRegisterConfig registerConfig, TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId, nullptr, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
         try {
@@ -87,7 +87,7 @@ void WriteModbusRegister(TPort& port,
                          PRegisterConfig registerConfig,
                          const TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId, nullptr, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     Modbus::TRegisterCache cache;
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
diff --git a/src/rpc/rpc_port_handler.cpp b/src/rpc/rpc_port_handler.cpp
index 8ff6f28..0b8832d 100644
--- a/src/rpc/rpc_port_handler.cpp
+++ b/src/rpc/rpc_port_handler.cpp
@@ -61,7 +61,7 @@ void TRPCPortHandler::PortLoad(const Json::Value& request,
             rpcRequest->OnResult = onResult;
             rpcRequest->OnError = onError;
             if (clientParams.Device) {
-                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId);
+                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId, nullptr, 0);
                 rpcRequest->Protocol = protocol;
             }
             SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCPortLoadModbusSerialClientTask>(rpcRequest));
-- 
2.43.0


From 502798d1d3c6c8d5f93db023c504af3c1ee03141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:20 +0000
Subject: [PATCH 68/93] fix: the service died when a port disappeared during an
 RPC request with its own port settings

---
 src/port/port.cpp        | 8 +++++++-
 src/port/serial_port.cpp | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 6fd5825..c66f4e7 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -1,6 +1,8 @@
 #include "port.h"
 #include "log.h"
 
+#define LOG(logger) ::logger.Log() << "[port] "
+
 void TPort::Reopen()
 {
     if (IsOpen()) {
@@ -105,5 +107,9 @@ TSerialPortSettingsGuard::TSerialPortSettingsGuard(PPort port, const TSerialPort
 
 TSerialPortSettingsGuard::~TSerialPortSettingsGuard()
 {
-    Port->ResetSerialPortSettings();
+    try {
+        Port->ResetSerialPortSettings();
+    } catch (const std::exception& e) {
+        LOG(Warn) << Port->GetDescription() << " can't restore port settings: " << e.what();
+    }
 }
diff --git a/src/port/serial_port.cpp b/src/port/serial_port.cpp
index 67179ee..005c07a 100644
--- a/src/port/serial_port.cpp
+++ b/src/port/serial_port.cpp
@@ -211,6 +211,8 @@ void TSerialPort::ApplySerialPortSettings(const TSerialPortConnectionSettings& s
 
 void TSerialPort::ResetSerialPortSettings()
 {
+    // Reopening of the port must use configured settings even if they can't be applied now
+    Settings.Set(InitialSettings);
     ApplySerialPortSettings(InitialSettings);
 }
 
-- 
2.43.0


From da76025a535a87e46451b2cf78ed145d7fa9ddec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:39 +0000
Subject: [PATCH 69/93] fix: undefined behaviour on port/Load with an empty
 message

---
 src/port/port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index c66f4e7..348f380 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -13,7 +13,7 @@ void TPort::Reopen()
 
 void TPort::WriteBytes(const std::vector<uint8_t>& buf)
 {
-    WriteBytes(&buf[0], buf.size());
+    WriteBytes(buf.data(), buf.size());
 }
 
 void TPort::WriteBytes(const std::string& buf)
-- 
2.43.0


From ae91f4ad8a1cc9424a137d7a1ce8e881fda233ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:07 +0000
Subject: [PATCH 70/93] fix: port/Setup without a serial number sent Modbus RTU
 frames to Modbus TCP ports

---
 src/rpc/rpc_port_setup_serial_client_task.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/rpc/rpc_port_setup_serial_client_task.cpp b/src/rpc/rpc_port_setup_serial_client_task.cpp
index 35d5eba..2ffbe5c 100644
--- a/src/rpc/rpc_port_setup_serial_client_task.cpp
+++ b/src/rpc/rpc_port_setup_serial_client_task.cpp
@@ -87,14 +87,14 @@ ISerialClientTask::TRunResult TRPCPortSetupSerialClientTask::Run(PFeaturePort po
             port->Open();
         }
         port->SkipNoise();
-        std::unique_ptr<Modbus::IModbusTraits> baseTraits;
-        if (port->IsModbusTcp()) {
-            baseTraits = std::make_unique<Modbus::TModbusTCPTraits>();
-        } else {
-            baseTraits = std::make_unique<Modbus::TModbusRTUTraits>();
-        }
-        ModbusExt::TModbusTraits fastModbusTraits(std::move(baseTraits));
-        Modbus::TModbusRTUTraits rtuTraits(false);
+        auto makeTraits = [&port]() -> std::unique_ptr<Modbus::IModbusTraits> {
+            if (port->IsModbusTcp()) {
+                return std::make_unique<Modbus::TModbusTCPTraits>();
+            }
+            return std::make_unique<Modbus::TModbusRTUTraits>();
+        };
+        ModbusExt::TModbusTraits fastModbusTraits(makeTraits());
+        auto commonTraits = makeTraits();
         auto frameTimeout =
             std::chrono::ceil<std::chrono::milliseconds>(port->GetSendTimeBytes(Modbus::STANDARD_FRAME_TIMEOUT_BYTES));
         for (auto item: Request->Items) {
@@ -107,7 +107,7 @@ ISerialClientTask::TRunResult TRPCPortSetupSerialClientTask::Run(PFeaturePort po
             }
             Modbus::TRegisterCache cache;
             Modbus::WriteSetupRegisters(item.Sn ? static_cast<Modbus::IModbusTraits&>(fastModbusTraits)
-                                                : static_cast<Modbus::IModbusTraits&>(rtuTraits),
+                                                : *commonTraits,
                                         *port,
                                         item.SlaveId,
                                         item.Regs,
-- 
2.43.0


From 2959053805155c7329dd76b72c51f93c09291c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:53 +0000
Subject: [PATCH 71/93] fix: refuse port/Setup requests with a slave id or a
 serial number out of range instead of truncating them

---
 src/rpc/rpc_port_setup_serial_client_task.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_setup_serial_client_task.cpp b/src/rpc/rpc_port_setup_serial_client_task.cpp
index 2ffbe5c..68af6ea 100644
--- a/src/rpc/rpc_port_setup_serial_client_task.cpp
+++ b/src/rpc/rpc_port_setup_serial_client_task.cpp
@@ -7,13 +7,24 @@
 
 namespace
 {
+    uint8_t GetSlaveId(const Json::Value& slaveId)
+    {
+        if (!slaveId.isUInt() || slaveId.asUInt() > 0xFF) {
+            throw std::runtime_error("Wrong slave id: " + slaveId.asString());
+        }
+        return slaveId.asUInt();
+    }
+
     TRPCPortSetupRequestItem ParseRPCPortSetupItemRequest(const Json::Value& request)
     {
         TRPCPortSetupRequestItem res;
 
-        res.SlaveId = request["slave_id"].asUInt();
+        res.SlaveId = GetSlaveId(request["slave_id"]);
 
         if (request.isMember("sn")) {
+            if (!request["sn"].isUInt()) {
+                throw std::runtime_error("Wrong serial number: " + request["sn"].asString());
+            }
             res.Sn = request["sn"].asUInt();
         }
 
-- 
2.43.0


From 04990d0c72134858e76e76406c4546945c5e5f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 72/93] fix: a port opened by an RPC request was never reopened
 after failures because of an uninitialized counter

---
 src/port/port.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 348f380..074adf7 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -48,6 +48,7 @@ std::chrono::microseconds TPort::CalcResponseTimeout(const std::chrono::microsec
 
 TPortOpenCloseLogic::TPortOpenCloseLogic(const TPortOpenCloseLogic::TSettings& settings, util::TGetNowFn nowFn)
     : Settings(settings),
+      RemainingFailCycles(settings.ConnectionMaxFailCycles),
       NowFn(nowFn)
 {}
 
-- 
2.43.0


From ad742c91362e7a83a22a89da5874cbf8e578d5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:57 +0000
Subject: [PATCH 73/93] fix: a late answer was taken as the answer to the next
 request, then every answer was taken for a wrong request

---
 src/port/file_descriptor_port.cpp | 19 +++++++++++++++++++
 src/port/file_descriptor_port.h   |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index d8a3ed7..71c6b4b 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -54,6 +54,10 @@ void TFileDescriptorPort::CheckPortOpen() const
 
 void TFileDescriptorPort::WriteBytes(const uint8_t* buf, int count)
 {
+    // Data received before the request can't be a response to it.
+    // If it is kept, every response will be taken as the response to the next request
+    SkipReceivedData();
+
     auto res = write(Fd, buf, count);
     if (res < count) {
         if (res < 0) {
@@ -75,6 +79,21 @@ void TFileDescriptorPort::WriteBytes(const uint8_t* buf, int count)
     }
 }
 
+void TFileDescriptorPort::SkipReceivedData()
+{
+    uint8_t buf[255];
+    int nb = 0;
+    while (ioctl(Fd, FIONREAD, &nb) == 0 && nb > 0) {
+        auto n = read(Fd, buf, std::min(static_cast<size_t>(nb), sizeof(buf)));
+        if (n <= 0) {
+            return;
+        }
+        if (::Debug.IsEnabled()) {
+            LOG(Debug) << GetDescription(false) << ": read outdated data: " << WBMQTT::HexDump(buf, n);
+        }
+    }
+}
+
 bool TFileDescriptorPort::Select(const chrono::microseconds& us)
 {
     fd_set rfds;
diff --git a/src/port/file_descriptor_port.h b/src/port/file_descriptor_port.h
index 78ac5cd..dca2dcb 100644
--- a/src/port/file_descriptor_port.h
+++ b/src/port/file_descriptor_port.h
@@ -41,4 +41,7 @@ private:
      * @return size_t actual read bytes number
      */
     size_t ReadAvailableData(uint8_t* buf, size_t max_read);
+
+    //! Drops received but not yet read data. Doesn't wait for new data
+    void SkipReceivedData();
 };
-- 
2.43.0


From ede0d45ec3763a6412a6c3e9b303a9be74e89b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:18 +0000
Subject: [PATCH 74/93] fix: continuous noise makes opening of a serial port
 endless

SkipNoise reopens the port when the noise is continuous, opening of a serial
port calls SkipNoise, so the limit of attempts was never reached
---
 src/port/file_descriptor_port.cpp | 17 +++++++++++++++++
 src/port/file_descriptor_port.h   |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index 71c6b4b..36cd152 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -229,6 +229,23 @@ TReadFrameResult TFileDescriptorPort::ReadFrame(uint8_t* buf,
 }
 
 void TFileDescriptorPort::SkipNoise()
+{
+    // Opening of the port also skips noise. If it is reopened because of continuous noise,
+    // the number of attempts is limited by the outer call
+    if (SkippingNoise) {
+        return;
+    }
+    SkippingNoise = true;
+    try {
+        WaitForSilence();
+    } catch (...) {
+        SkippingNoise = false;
+        throw;
+    }
+    SkippingNoise = false;
+}
+
+void TFileDescriptorPort::WaitForSilence()
 {
     uint8_t buf[255] = {};
     auto start = std::chrono::steady_clock::now();
diff --git a/src/port/file_descriptor_port.h b/src/port/file_descriptor_port.h
index dca2dcb..b257430 100644
--- a/src/port/file_descriptor_port.h
+++ b/src/port/file_descriptor_port.h
@@ -44,4 +44,9 @@ private:
 
     //! Drops received but not yet read data. Doesn't wait for new data
     void SkipReceivedData();
+
+    //! Drops received data until there is a pause. Reopens the port on continuous data flow
+    void WaitForSilence();
+
+    bool SkippingNoise = false;
 };
-- 
2.43.0


From 430ed3981c894229abdaa8d010ed87ac527dcc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:18 +0000
Subject: [PATCH 75/93] fix: SkipNoise passes descriptor -1 to select() if the
 port is closed

It is possible if a TCP port is closed by remote side during poll cycle
---
 src/port/file_descriptor_port.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index 36cd152..b1be570 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -232,7 +232,8 @@ void TFileDescriptorPort::SkipNoise()
 {
     // Opening of the port also skips noise. If it is reopened because of continuous noise,
     // the number of attempts is limited by the outer call
-    if (SkippingNoise) {
+    // There is no noise to skip in a closed port
+    if (SkippingNoise || !IsOpen()) {
         return;
     }
     SkippingNoise = true;
-- 
2.43.0


From 897c68d46ca7bb75119da29b7beff06a640fdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:53 +0000
Subject: [PATCH 76/93] fix: each register counts as a failed polling cycle
 while a port is closed

DeviceMaxFailCycles is the number of polling cycles, but a closed port
counted a failure for every register of a device, so devices with many
registers were disconnected after the first cycle.
---
 src/serial_client_register_poller.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index ea89509..29c5241 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -1,6 +1,7 @@
 #include "serial_client_register_poller.h"
 #include <chrono>
 #include <iostream>
+#include <set>
 #include <unistd.h>
 
 #include "log.h"
@@ -169,6 +170,7 @@ void TSerialClientRegisterPoller::ClosedPortCycle(steady_clock::time_point curre
 
     std::unique_lock lock(Mutex);
 
+    std::set<PSerialDevice> failedDevices;
     TClosedPortDeviceReader reader(currentTime);
     do {
         reader.ClearRegisters();
@@ -178,10 +180,13 @@ void TSerialClientRegisterPoller::ClosedPortCycle(steady_clock::time_point curre
             if (callback) {
                 callback(reg);
             }
-            auto device = reader.GetDevice()->GetDevice();
-            device->SetTransferResult(false);
         }
         if (reader.GetDevice()) {
+            // It is one failed cycle regardless of number and priorities of registers
+            auto device = reader.GetDevice()->GetDevice();
+            if (!reader.GetRegisters().empty() && failedDevices.insert(device).second) {
+                device->SetTransferResult(false);
+            }
             ScheduleNextPoll(reader.GetDevice(), currentTime);
         }
     } while (!reader.GetRegisters().empty());
-- 
2.43.0


From 9e751b89d8137afe3d370ff71b2e9910adc965b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:36 +0000
Subject: [PATCH 77/93] fix: RPC requests leave continuous read enabled on
 devices which don't use it

---
 src/rpc/rpc_helpers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index b46921e..ba9cdd1 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -1,4 +1,5 @@
 #include "rpc_helpers.h"
+#include "devices/modbus_device.h"
 #include "log.h"
 #include "modbus_base.h"
 #include "modbus_common.h"
@@ -141,6 +142,12 @@ void SetContinuousRead(TPort& port, TRPCDeviceRequest& request, bool enabled)
     }
 }
 
+bool ContinuousReadIsUsed(const TRPCDeviceRequest& request)
+{
+    auto modbusDevice = dynamic_cast<TModbusDevice*>(request.Device.get());
+    return modbusDevice != nullptr && modbusDevice->GetContinuousReadEnabled();
+}
+
 bool CheckUnsupportedValue(const TRegisterConfig& config, const TRegisterValue& value)
 {
     switch (value.GetType()) {
@@ -197,7 +204,8 @@ void MarkUnsupportedRegisterItems(TPort& port,
         } catch (const TRegisterValueException& e) {
         }
     }
-    if (!continuousRead) {
+    // Don't leave continuous read enabled if the device doesn't use it
+    if (!continuousRead && ContinuousReadIsUsed(request)) {
         SetContinuousRead(port, request, true);
     }
 }
-- 
2.43.0


From 6348b7ea58b9f5782bc0efa76f261323138dd1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:05 +0000
Subject: [PATCH 78/93] fix: device/Set request without items is answered twice

---
 src/rpc/rpc_device_set_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 611b3a4..9716fcc 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -17,6 +17,7 @@ namespace
         rpcRequest->GetParametersSetupItems(setupItems);
         if (setupItems.empty()) {
             rpcRequest->OnResult(Json::Value(Json::objectValue));
+            return;
         }
 
         std::string error;
-- 
2.43.0


From 582285d575441945067d6c76df874122d0d60253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:05 +0000
Subject: [PATCH 79/93] fix: device/LoadConfig fails for devices without
 extended model registers

---
 src/rpc/rpc_device_load_config_task.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index 3d4ba52..0417107 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -29,9 +29,17 @@ namespace
     std::string ReadDeviceModel(TPort& port, PRPCDeviceLoadConfigRequest rpcRequest)
     {
         try {
-            return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_EX_REGISTER_NAME);
+            auto config = WbRegisters::GetRegisterConfig(WbRegisters::DEVICE_MODEL_EX_REGISTER_NAME);
+            TRegisterValue value;
+            ReadModbusRegister(port, *rpcRequest, config, value);
+            return value.Get<std::string>();
         } catch (const Modbus::TErrorBase& err) {
             return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_REGISTER_NAME);
+        } catch (const TResponseTimeoutException& err) {
+            LOG(Warn) << port.GetDescription() << " modbus:" << rpcRequest->Device->DeviceConfig()->SlaveId
+                      << " unable to read \"" << WbRegisters::DEVICE_MODEL_EX_REGISTER_NAME
+                      << "\" register: " << err.what();
+            throw TRPCException(err.what(), TRPCResultCode::RPC_WRONG_PARAM_VALUE);
         }
     }
 
-- 
2.43.0


From c3d2698b884d426fabc731182752c12e2484e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 80/93] fix: RPC marks registers as unsupported because of
 other registers of the request

---
 src/rpc/rpc_device_handler.cpp | 67 ++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 1a80ee0..64d89cf 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -344,6 +344,49 @@ TRPCRegisterList CreateRegisterList(const TDeviceProtocolParams& protocolParams,
     return registerList;
 }
 
+namespace
+{
+    // Returns error description or empty string
+    std::string ReadRange(TPort& port, PSerialDevice device, PRegisterRange range, int maxRetries)
+    {
+        auto registers = range->RegisterList();
+        auto description = std::to_string(registers.size()) + " registers starting from <" +
+                           registers.front()->GetConfig()->ToString() + ">: ";
+        for (int i = 0; i <= maxRetries; ++i) {
+            try {
+                device->ReadRegisterRange(port, range, true);
+                return std::string();
+            } catch (const TSerialDevicePermanentRegisterException& e) {
+                LOG(Warn) << port.GetDescription() << " " << device->ToString() << ": "
+                          << "Failed to read " << description << e.what();
+                auto modbusDevice = dynamic_cast<TModbusDevice*>(device.get());
+                if (modbusDevice == nullptr || modbusDevice->GetContinuousReadEnabled()) {
+                    return std::string();
+                }
+                if (registers.size() == 1) {
+                    registers.front()->SetSupported(false);
+                    return std::string();
+                }
+                // Some of the registers could be supported
+                for (const auto& reg: registers) {
+                    auto singleRegisterRange = device->CreateRegisterRange();
+                    singleRegisterRange->Add(port, reg, std::chrono::milliseconds::max());
+                    auto error = ReadRange(port, device, singleRegisterRange, maxRetries);
+                    if (!error.empty()) {
+                        return error;
+                    }
+                }
+                return std::string();
+            } catch (const TSerialDeviceException& e) {
+                if (i == maxRetries) {
+                    return "Failed to read " + description + e.what();
+                }
+            }
+        }
+        return std::string();
+    }
+}
+
 void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& registerList, int maxRetries)
 {
     if (registerList.size() == 0) {
@@ -358,35 +401,13 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
     size_t index = 0;
     std::string error;
     while (index < registerList.size() && error.empty()) {
-        auto first = registerList[index].Register;
         auto range = device->CreateRegisterRange();
         while (index < registerList.size() &&
                range->Add(port, registerList[index].Register, std::chrono::milliseconds::max()))
         {
             ++index;
         }
-        for (int i = 0; i <= maxRetries; ++i) {
-            try {
-                device->ReadRegisterRange(port, range, true);
-                break;
-            } catch (const TSerialDevicePermanentRegisterException& e) {
-                LOG(Warn) << port.GetDescription() << " " << device->ToString() << ": "
-                          << "Failed to read " << std::to_string(range->RegisterList().size())
-                          << " registers starting from <" << first->GetConfig()->ToString() + ">: " + e.what();
-                auto modbusDevice = dynamic_cast<TModbusDevice*>(device.get());
-                if (modbusDevice != nullptr && !modbusDevice->GetContinuousReadEnabled()) {
-                    for (const auto& reg: range->RegisterList()) {
-                        reg->SetSupported(false);
-                    }
-                }
-                break;
-            } catch (const TSerialDeviceException& e) {
-                if (i == maxRetries) {
-                    error = "Failed to read " + std::to_string(range->RegisterList().size()) +
-                            " registers starting from <" + first->GetConfig()->ToString() + ">: " + e.what();
-                }
-            }
-        }
+        error = ReadRange(port, device, range, maxRetries);
     }
 
     try {
-- 
2.43.0


From dbb9d72962979f4067816b5e71bcde222f5a6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 81/93] fix: device/Load loses requested parameters which are
 used in conditions

---
 src/rpc/rpc_device_load_task.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rpc/rpc_device_load_task.cpp b/src/rpc/rpc_device_load_task.cpp
index adeabcb..c0fb4b6 100644
--- a/src/rpc/rpc_device_load_task.cpp
+++ b/src/rpc/rpc_device_load_task.cpp
@@ -33,20 +33,20 @@ namespace
         PrepareSession(*port, rpcRequest->Device);
 
         // Step 1: Read parameters that are referenced by channel conditions
+        Json::Value readonlyList(Json::arrayValue);
         Json::Value conditionParamValues(Json::objectValue);
+        Json::Value conditionParamReadonlyList(Json::arrayValue);
         auto condParamRegList = rpcRequest->GetConditionParametersRegisterList();
         if (!condParamRegList.empty()) {
-            ReadRegisterList(*port, rpcRequest->Device, condParamRegList);
+            ReadRegisters(port, rpcRequest, condParamRegList, conditionParamValues, conditionParamReadonlyList);
             for (const auto& item: condParamRegList) {
-                if (item.Register->IsSupported()) {
-                    conditionParamValues[item.Id] =
-                        RawValueToJSON(*item.Register->GetConfig(), item.Register->GetValue());
+                if (conditionParamValues[item.Id] == UNSUPPORTED_VALUE) {
+                    conditionParamValues.removeMember(item.Id);
                 }
             }
         }
 
         // Step 2: Read channels, filtering by condition using actual parameter values
-        Json::Value readonlyList(Json::arrayValue);
         Json::Value result(Json::objectValue);
         auto channelRegList = rpcRequest->GetChannelsRegisterList(conditionParamValues);
         if (!channelRegList.empty()) {
@@ -63,9 +63,16 @@ namespace
                 paramData[id] = conditionParamValues[id];
             }
         }
+        for (const auto& id: conditionParamReadonlyList) {
+            if (paramData.isMember(id.asString())) {
+                readonlyList.append(id);
+            }
+        }
         auto paramRegList = rpcRequest->GetParametersRegisterList(conditionParamValues);
         if (!paramRegList.empty()) {
             ReadRegisters(port, rpcRequest, paramRegList, paramData, readonlyList);
+        }
+        if (!paramData.empty()) {
             result["parameters"] = paramData;
         }
 
-- 
2.43.0


From 1ef185abf4ce2d3e663b121b4b2ee93f31295968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:43 +0000
Subject: [PATCH 82/93] fix: RPC leaves continuous read disabled if check of
 unsupported registers fails

---
 src/rpc/rpc_helpers.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index ba9cdd1..1d93d7a 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -186,6 +186,12 @@ void MarkUnsupportedRegisterItems(TPort& port,
                                   Json::Value& data)
 {
     auto continuousRead = true;
+    auto restoreContinuousRead = [&]() {
+        // Don't leave continuous read enabled if the device doesn't use it
+        if (!continuousRead && ContinuousReadIsUsed(request)) {
+            SetContinuousRead(port, request, true);
+        }
+    };
     for (const auto& item: registerList) {
         try {
             if (item.CheckUnsupported && CheckUnsupportedValue(*item.Register->GetConfig(), item.Register->GetValue()))
@@ -202,10 +208,10 @@ void MarkUnsupportedRegisterItems(TPort& port,
                 }
             }
         } catch (const TRegisterValueException& e) {
+        } catch (...) {
+            restoreContinuousRead();
+            throw;
         }
     }
-    // Don't leave continuous read enabled if the device doesn't use it
-    if (!continuousRead && ContinuousReadIsUsed(request)) {
-        SetContinuousRead(port, request, true);
-    }
+    restoreContinuousRead();
 }
-- 
2.43.0


From 38911d4a3bae4e5a5013b2849306e8f99c367521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:43 +0000
Subject: [PATCH 83/93] fix: suspended device is polled after disconnection

---
 src/serial_client_register_poller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 29c5241..4408252 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -356,6 +356,10 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices(steady_clock::ti
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
+        // The device will be added to the scheduler by ResumePoll
+        if (DevicesWithSpendedPoll.count(device)) {
+            continue;
+        }
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
-- 
2.43.0


From f52af0f3967349f5e6d0d214c0b3aace1b3de846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:04 +0000
Subject: [PATCH 84/93] fix: device/SetPoll before the first polling cycle
 crashes

---
 src/serial_client.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index f0449df..9071b20 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -216,11 +216,17 @@ void TSerialClient::AddTask(PSerialClientTask task)
 
 void TSerialClient::SuspendPoll(PSerialDevice device, std::chrono::steady_clock::time_point currentTime)
 {
+    if (!RegReader) {
+        throw std::runtime_error("Device " + device->ToString() + " poll is not started");
+    }
     RegReader->SuspendPoll(device, currentTime);
 }
 
 void TSerialClient::ResumePoll(PSerialDevice device)
 {
+    if (!RegReader) {
+        throw std::runtime_error("Device " + device->ToString() + " poll is not started");
+    }
     RegReader->ResumePoll(device);
 }
 
-- 
2.43.0


From a0ffd08557c0f9fec136153a314d3b8513679c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:04 +0000
Subject: [PATCH 85/93] fix: setup registers are not written after RPC request
 to a disconnected device

---
 src/rpc/rpc_device_load_config_task.cpp |  1 +
 src/rpc/rpc_device_load_task.cpp        |  1 +
 src/rpc/rpc_device_set_task.cpp         |  1 +
 src/rpc/rpc_helpers.cpp                 | 12 ++++++++++++
 src/rpc/rpc_helpers.h                   | 13 +++++++++++++
 src/serial_device.cpp                   |  9 +++++++++
 src/serial_device.h                     |  4 ++++
 7 files changed, 41 insertions(+)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index 0417107..5d897a9 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -196,6 +196,7 @@ ISerialClientTask::TRunResult TRPCDeviceLoadConfigSerialClientTask::Run(
             port->Open();
         }
         lastAccessedDevice.PrepareToAccess(*port, nullptr);
+        TRPCDeviceConnectionStateGuard connectionStateGuard(*Request);
         if (!Request->DeviceFromConfig) {
             TSerialPortSettingsGuard settingsGuard(port, Request->SerialPortSettings);
             ExecRPCRequest(port, Request);
diff --git a/src/rpc/rpc_device_load_task.cpp b/src/rpc/rpc_device_load_task.cpp
index c0fb4b6..22c22c1 100644
--- a/src/rpc/rpc_device_load_task.cpp
+++ b/src/rpc/rpc_device_load_task.cpp
@@ -264,6 +264,7 @@ ISerialClientTask::TRunResult TRPCDeviceLoadSerialClientTask::Run(PFeaturePort p
             port->Open();
         }
         lastAccessedDevice.PrepareToAccess(*port, nullptr);
+        TRPCDeviceConnectionStateGuard connectionStateGuard(*Request);
         if (!Request->DeviceFromConfig) {
             TSerialPortSettingsGuard settingsGuard(port, Request->SerialPortSettings);
             ExecRPCRequest(port, Request);
diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 9716fcc..379a366 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -155,6 +155,7 @@ ISerialClientTask::TRunResult TRPCDeviceSetSerialClientTask::Run(PFeaturePort po
             port->Open();
         }
         lastAccessedDevice.PrepareToAccess(*port, nullptr);
+        TRPCDeviceConnectionStateGuard connectionStateGuard(*Request);
         if (!Request->DeviceFromConfig) {
             TSerialPortSettingsGuard settingsGuard(port, Request->SerialPortSettings);
             ExecRPCRequest(port, Request);
diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index 1d93d7a..57235ae 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -47,6 +47,18 @@ Json::Value LoadRPCRequestSchema(const std::string& schemaFilePath, const std::s
     }
 }
 
+TRPCDeviceConnectionStateGuard::TRPCDeviceConnectionStateGuard(const TRPCDeviceRequest& request): Request(request)
+{}
+
+TRPCDeviceConnectionStateGuard::~TRPCDeviceConnectionStateGuard()
+{
+    if (Request.DeviceFromConfig && Request.Device->IsSetupRequired() &&
+        Request.Device->GetConnectionState() == TDeviceConnectionState::CONNECTED)
+    {
+        Request.Device->SetDisconnected();
+    }
+}
+
 void ReadModbusRegister(TPort& port, TRPCDeviceRequest& request, PRegisterConfig registerConfig, TRegisterValue& value)
 {
     auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId, nullptr, 0));
diff --git a/src/rpc/rpc_helpers.h b/src/rpc/rpc_helpers.h
index ece2df6..93d9844 100644
--- a/src/rpc/rpc_helpers.h
+++ b/src/rpc/rpc_helpers.h
@@ -13,6 +13,19 @@ constexpr auto UNSUPPORTED_VALUE = "unsupported";
 TSerialPortConnectionSettings ParseRPCSerialPortSettings(const Json::Value& request);
 std::unique_ptr<Modbus::IModbusTraits> MakeModbusTraits(const std::string& protocol);
 
+/**
+ * @brief RPC requests don't write setup registers. If the driver has to write them, leaves the device disconnected after
+ *        the request, so that the driver writes setup registers before polling.
+ */
+class TRPCDeviceConnectionStateGuard
+{
+    const TRPCDeviceRequest& Request;
+
+public:
+    TRPCDeviceConnectionStateGuard(const TRPCDeviceRequest& request);
+    ~TRPCDeviceConnectionStateGuard();
+};
+
 /**
  * @brief Reads a Modbus register with retry logic.
  */
diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index fa9624d..344d292 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -114,6 +114,7 @@ void TSerialDevice::Prepare(TPort& port, TDevicePrepareMode prepareMode)
         PrepareImpl(port);
         if (prepareMode == TDevicePrepareMode::WITH_SETUP_IF_WAS_DISCONNECTED && deviceWasDisconnected) {
             WriteSetupRegisters(port, GetSetupItems());
+            SetupRequired = false;
         }
     } catch (const TSerialDeviceException& ex) {
         SetTransferResult(false);
@@ -232,6 +233,11 @@ void TSerialDevice::SetTransferResult(bool ok)
     }
 }
 
+bool TSerialDevice::IsSetupRequired() const
+{
+    return SetupRequired;
+}
+
 TDeviceConnectionState TSerialDevice::GetConnectionState() const
 {
     return ConnectionState;
@@ -337,6 +343,9 @@ void TSerialDevice::SetConnectionState(TDeviceConnectionState state)
         return;
     }
     ConnectionState = state;
+    if (state == TDeviceConnectionState::DISCONNECTED) {
+        SetupRequired = true;
+    }
     if (state == TDeviceConnectionState::CONNECTED) {
         // clear serial number on connection as it can be other device than before disconnection
         if (SnRegister) {
diff --git a/src/serial_device.h b/src/serial_device.h
index 49061a9..122fe39 100644
--- a/src/serial_device.h
+++ b/src/serial_device.h
@@ -248,6 +248,9 @@ public:
     TDeviceConnectionState GetConnectionState() const;
     void SetDisconnected();
 
+    //! Setup registers are not written since the device was disconnected
+    bool IsSetupRequired() const;
+
     bool GetSupportsHoles() const;
     void SetSupportsHoles(bool supportsHoles);
 
@@ -293,6 +296,7 @@ private:
     PProtocol _Protocol;
     std::chrono::steady_clock::time_point LastSuccessfulCycle;
     TDeviceConnectionState ConnectionState;
+    bool SetupRequired = true;
     int RemainingFailCycles;
     bool SupportsHoles;
     bool SporadicOnly;
-- 
2.43.0


From b473e30f5b9caac9c2f428038f6e9de73d787945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:32 +0000
Subject: [PATCH 86/93] fix: device/LoadConfig answers with settings of a
 device on another port

---
 src/rpc/rpc_device_load_config_task.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index 5d897a9..59a0515 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -43,11 +43,23 @@ namespace
         }
     }
 
+    std::string GetPortDescription(const Json::Value& portConfig)
+    {
+        if (portConfig.get("port_type", "serial").asString() == "serial") {
+            return portConfig["path"].asString();
+        }
+        return portConfig["address"].asString() + ":" + portConfig["port"].asString();
+    }
+
     void LoadConfigParameters(PPort port, PRPCDeviceLoadConfigRequest rpcRequest, Json::Value& parameters)
     {
         Json::Value config(WBMQTT::JSON::Parse(rpcRequest->ConfigFileName));
-        for (const auto& port: config["ports"]) {
-            for (auto cfg: port["devices"]) {
+        for (const auto& portConfig: config["ports"]) {
+            // There could be devices with the same address on other ports
+            if (GetPortDescription(portConfig) != port->GetDescription(false)) {
+                continue;
+            }
+            for (auto cfg: portConfig["devices"]) {
                 const auto& dev = rpcRequest->Device->DeviceConfig();
                 if (cfg["device_type"].asString() == dev->DeviceType && cfg["slave_id"].asString() == dev->SlaveId) {
                     cfg.removeMember("channels");
-- 
2.43.0


From 11ef720425933f0bdcaa4a6b31068829c1418c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:32 +0000
Subject: [PATCH 87/93] fix: device/LoadConfig answers with outdated values
 after device/Set

---
 src/rpc/rpc_device_handler.cpp  | 1 +
 src/rpc/rpc_device_set_task.cpp | 5 +++++
 src/rpc/rpc_device_set_task.h   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 64d89cf..bd3aaa6 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -227,6 +227,7 @@ void TRPCDeviceHandler::Set(const Json::Value& request,
                                                    helper.DeviceFromConfig,
                                                    onResult,
                                                    onError);
+        rpcRequest->ParametersCache = &ParametersCache;
         SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCDeviceSetSerialClientTask>(rpcRequest));
     } catch (const TRPCException& e) {
         ProcessException(e, onError);
diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 379a366..d45b165 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -20,6 +20,11 @@ namespace
             return;
         }
 
+        if (rpcRequest->ParametersCache) {
+            const auto& slaveId = rpcRequest->Device->DeviceConfig()->SlaveId;
+            rpcRequest->ParametersCache->Remove(rpcRequest->ParametersCache->GetId(*port, slaveId));
+        }
+
         std::string error;
         try {
             rpcRequest->Device->Prepare(*port, TDevicePrepareMode::WITHOUT_SETUP);
diff --git a/src/rpc/rpc_device_set_task.h b/src/rpc/rpc_device_set_task.h
index ec10747..c96b8ce 100644
--- a/src/rpc/rpc_device_set_task.h
+++ b/src/rpc/rpc_device_set_task.h
@@ -12,6 +12,9 @@ public:
     std::unordered_map<std::string, std::string> Channels;
     std::unordered_map<std::string, std::string> Parameters;
 
+    //! Cached parameters are removed before writing. Can be nullptr.
+    TRPCDeviceParametersCache* ParametersCache = nullptr;
+
     void ParseRequestItems(const Json::Value& items, std::unordered_map<std::string, std::string>& map);
 
     void GetChannelsSetupItems(TDeviceSetupItems& setupItems);
-- 
2.43.0


From ff51746233913fbf5ddaa5ab7593959e178a463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:57 +0000
Subject: [PATCH 88/93] fix: failed update of a component or of the firmware
 after the bootloader is shown as active forever

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 52 ++++++++++++++------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 1b79664..8f52ab0 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -7,6 +7,19 @@
 
 #define LOG(logger) ::logger.Log() << "[fw-update] "
 
+namespace
+{
+    const std::string GENERIC_ERROR_ID = "com.wb.serial_driver.generic_error";
+    const std::string GENERIC_ERROR_MESSAGE = "Internal error. Check logs for more info";
+
+    Json::Value MakeErrorMetadata(const std::exception& e)
+    {
+        Json::Value metadata;
+        metadata["exception"] = e.what();
+        return metadata;
+    }
+}
+
 TFwUpdateSerialClientTask::TFwUpdateSerialClientTask(uint8_t slaveId,
                                                      const std::string& protocol,
                                                      const std::string& softwareType,
@@ -65,11 +78,12 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
-            std::string errorId = "com.wb.serial_driver.generic_error";
-            std::string errorMsg = "Internal error. Check logs for more info";
-            Json::Value metadata;
-            metadata["exception"] = e.what();
-            State->SetError(SlaveId, PortPath, SoftwareType, errorId, errorMsg, metadata);
+            State->SetError(SlaveId,
+                            PortPath,
+                            SoftwareType,
+                            GENERIC_ERROR_ID,
+                            GENERIC_ERROR_MESSAGE,
+                            MakeErrorMetadata(e));
         }
         {
             std::lock_guard<std::mutex> lock(UpdateLock->Mutex);
@@ -194,17 +208,23 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
     updateInfo.ComponentModel = componentModel;
     State->Update(updateInfo);
 
-    // Download and parse firmware file
-    auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
-
-    // Flash with throttled progress updates
-    TUpdateNotifier notifier(30);
-    FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
-        if (notifier.ShouldNotify(percent)) {
-            updateInfo.Progress = percent;
-            State->Update(updateInfo);
-        }
-    });
+    try {
+        // Download and parse firmware file
+        auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
+
+        // Flash with throttled progress updates
+        TUpdateNotifier notifier(30);
+        FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
+            if (notifier.ShouldNotify(percent)) {
+                updateInfo.Progress = percent;
+                State->Update(updateInfo);
+            }
+        });
+    } catch (const std::exception& e) {
+        // The type can differ from the requested one
+        State->SetError(SlaveId, PortPath, type, GENERIC_ERROR_ID, GENERIC_ERROR_MESSAGE, MakeErrorMetadata(e));
+        throw;
+    }
 
     // Success — remove from state
     State->Remove(SlaveId, PortPath, type);
-- 
2.43.0


From ec5b0aecf6c7cdbff9d2ac5cafaf8a04b5f5488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:03 +0000
Subject: [PATCH 89/93] fix: firmware update that can't be started is answered
 with Ok and its error is lost

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 18 ++++++++++++------
 src/rpc/rpc_fw_update_serial_client_task.h   |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 8f52ab0..b156575 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -78,12 +78,17 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
-            State->SetError(SlaveId,
-                            PortPath,
-                            SoftwareType,
-                            GENERIC_ERROR_ID,
-                            GENERIC_ERROR_MESSAGE,
-                            MakeErrorMetadata(e));
+            if (!FlashErrorReported) {
+                // Flashing is not started, so there can be no state entry yet
+                TDeviceUpdateInfo updateInfo;
+                updateInfo.PortPath = PortPath;
+                updateInfo.Protocol = Protocol;
+                updateInfo.SlaveId = SlaveId;
+                updateInfo.Type = SoftwareType;
+                updateInfo.Error = std::make_unique<TStateError>(
+                    TStateError{GENERIC_ERROR_ID, GENERIC_ERROR_MESSAGE, MakeErrorMetadata(e)});
+                State->Update(updateInfo);
+            }
         }
         {
             std::lock_guard<std::mutex> lock(UpdateLock->Mutex);
@@ -223,6 +228,7 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
     } catch (const std::exception& e) {
         // The type can differ from the requested one
         State->SetError(SlaveId, PortPath, type, GENERIC_ERROR_ID, GENERIC_ERROR_MESSAGE, MakeErrorMetadata(e));
+        FlashErrorReported = true;
         throw;
     }
 
diff --git a/src/rpc/rpc_fw_update_serial_client_task.h b/src/rpc/rpc_fw_update_serial_client_task.h
index 27d8b61..a5284e3 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.h
+++ b/src/rpc/rpc_fw_update_serial_client_task.h
@@ -52,4 +52,5 @@ private:
     PFwUpdateLock UpdateLock;
     WBMQTT::TMqttRpcServer::TResultCallback OnResult;
     WBMQTT::TMqttRpcServer::TErrorCallback OnError;
+    bool FlashErrorReported = false;
 };
-- 
2.43.0


From ef6c860820d20870a06724640d32d77208df7b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 90/93] fix: firmware is written to a device that has refused
 the information block

---
 src/rpc/rpc_fw_update_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_fw_update_task.cpp b/src/rpc/rpc_fw_update_task.cpp
index 9de1344..bf27d30 100644
--- a/src/rpc/rpc_fw_update_task.cpp
+++ b/src/rpc/rpc_fw_update_task.cpp
@@ -97,7 +97,8 @@ namespace
                                    infoData);
         auto responsePduSize =
             Modbus::CalcResponsePDUSize(Modbus::FN_WRITE_MULTIPLE_REGISTERS, FwRegisters::FW_INFO_BLOCK_COUNT);
-        traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        auto res = traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        Modbus::ExtractResponseData(Modbus::FN_WRITE_MULTIPLE_REGISTERS, res.Pdu);
     }
 
     // Cf. firmware_update.py:349 write_fw_data_block()
-- 
2.43.0


From 0dc18788a408fa87e9e69d79d4100d178abb043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:33 +0000
Subject: [PATCH 91/93] fix: error of a component update is lost if another
 component is updated after it

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 10 ++++++++--
 src/rpc/rpc_fw_update_state.cpp              | 20 +++++++++++++-------
 src/rpc/rpc_fw_update_state.h                |  5 +++--
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index b156575..9ef565c 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -227,11 +227,17 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
         });
     } catch (const std::exception& e) {
         // The type can differ from the requested one
-        State->SetError(SlaveId, PortPath, type, GENERIC_ERROR_ID, GENERIC_ERROR_MESSAGE, MakeErrorMetadata(e));
+        State->SetError(SlaveId,
+                        PortPath,
+                        type,
+                        GENERIC_ERROR_ID,
+                        GENERIC_ERROR_MESSAGE,
+                        MakeErrorMetadata(e),
+                        componentNumber);
         FlashErrorReported = true;
         throw;
     }
 
     // Success — remove from state
-    State->Remove(SlaveId, PortPath, type);
+    State->Remove(SlaveId, PortPath, type, componentNumber);
 }
diff --git a/src/rpc/rpc_fw_update_state.cpp b/src/rpc/rpc_fw_update_state.cpp
index 558d3a7..44e87b4 100644
--- a/src/rpc/rpc_fw_update_state.cpp
+++ b/src/rpc/rpc_fw_update_state.cpp
@@ -11,7 +11,8 @@
 // Cf. firmware_update.py:73 DeviceUpdateInfo.__eq__()
 bool TDeviceUpdateInfo::Matches(const TDeviceUpdateInfo& other) const
 {
-    return SlaveId == other.SlaveId && PortPath == other.PortPath && Type == other.Type && Protocol == other.Protocol;
+    return SlaveId == other.SlaveId && PortPath == other.PortPath && Type == other.Type && Protocol == other.Protocol &&
+           ComponentNumber == other.ComponentNumber;
 }
 
 // ============================================================
@@ -66,7 +67,7 @@ void TFwUpdateState::Update(const TDeviceUpdateInfo& info)
     Publish(json);
 }
 
-void TFwUpdateState::Remove(int slaveId, const std::string& portPath, const std::string& type)
+void TFwUpdateState::Remove(int slaveId, const std::string& portPath, const std::string& type, int componentNumber)
 {
     std::string json;
     {
@@ -74,7 +75,8 @@ void TFwUpdateState::Remove(int slaveId, const std::string& portPath, const std:
         Devices.erase(std::remove_if(Devices.begin(),
                                      Devices.end(),
                                      [&](const TDeviceUpdateInfo& d) {
-                                         return d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type;
+                                         return d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type &&
+                                                d.ComponentNumber == componentNumber;
                                      }),
                       Devices.end());
         json = ToJson();
@@ -87,13 +89,16 @@ void TFwUpdateState::SetError(int slaveId,
                               const std::string& type,
                               const std::string& errorId,
                               const std::string& errorMessage,
-                              const Json::Value& metadata)
+                              const Json::Value& metadata,
+                              int componentNumber)
 {
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
         for (auto& d: Devices) {
-            if (d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type) {
+            if (d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type &&
+                d.ComponentNumber == componentNumber)
+            {
                 d.Error = std::make_unique<TStateError>(TStateError{errorId, errorMessage, metadata});
                 json = ToJson();
                 break;
@@ -118,11 +123,12 @@ void TFwUpdateState::ClearError(int slaveId, const std::string& portPath, const
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
-        auto it = std::find_if(Devices.begin(), Devices.end(), [&](const TDeviceUpdateInfo& d) {
+        // There can be several components with errors
+        auto it = std::remove_if(Devices.begin(), Devices.end(), [&](const TDeviceUpdateInfo& d) {
             return d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type && d.Error;
         });
         if (it != Devices.end()) {
-            Devices.erase(it);
+            Devices.erase(it, Devices.end());
             json = ToJson();
         }
     }
diff --git a/src/rpc/rpc_fw_update_state.h b/src/rpc/rpc_fw_update_state.h
index aa82f47..e1fb699 100644
--- a/src/rpc/rpc_fw_update_state.h
+++ b/src/rpc/rpc_fw_update_state.h
@@ -39,13 +39,14 @@ public:
     TFwUpdateState(TStatePublishFn publishFn, const std::string& topic);
 
     void Update(const TDeviceUpdateInfo& info);
-    void Remove(int slaveId, const std::string& portPath, const std::string& type);
+    void Remove(int slaveId, const std::string& portPath, const std::string& type, int componentNumber = -1);
     void SetError(int slaveId,
                   const std::string& portPath,
                   const std::string& type,
                   const std::string& errorId,
                   const std::string& errorMessage,
-                  const Json::Value& metadata = Json::Value());
+                  const Json::Value& metadata = Json::Value(),
+                  int componentNumber = -1);
     bool HasActiveUpdate(int slaveId, const std::string& portPath) const;
     void ClearError(int slaveId, const std::string& portPath, const std::string& type);
     void Reset();
-- 
2.43.0


From 639758018b72a7ad897ab82ecc196b839bcf074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:43 +0000
Subject: [PATCH 92/93] fix: RPC leaves continuous read disabled if
 confirmation of disabling is broken

---
 src/rpc/rpc_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index 57235ae..09674b7 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -145,7 +145,7 @@ void SetContinuousRead(TPort& port, TRPCDeviceRequest& request, bool enabled)
         WriteModbusRegister(port, request, config, TRegisterValue(enabled));
     } catch (const Modbus::TErrorBase& err) {
         error = err.what();
-    } catch (const TResponseTimeoutException& e) {
+    } catch (const TSerialDeviceException& e) {
         error = e.what();
     }
     if (!error.empty()) {
-- 
2.43.0


From fa5818fdb790c8e6fc5f1a3ec2a8f6a74deac373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 93/93] fix: failures of registers of a closed port are not
 reported for disconnected devices

Only the first failure of a polling cycle counts, but a device gets the
results of all its registers as before.
---
 src/serial_client_register_poller.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 4408252..7b7333d 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -180,13 +180,16 @@ void TSerialClientRegisterPoller::ClosedPortCycle(steady_clock::time_point curre
             if (callback) {
                 callback(reg);
             }
-        }
-        if (reader.GetDevice()) {
-            // It is one failed cycle regardless of number and priorities of registers
+            // It is one failed cycle of a device regardless of number and priorities of its registers.
+            // Further failures of already disconnected devices are only notifications
             auto device = reader.GetDevice()->GetDevice();
-            if (!reader.GetRegisters().empty() && failedDevices.insert(device).second) {
+            if (failedDevices.insert(device).second ||
+                device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED)
+            {
                 device->SetTransferResult(false);
             }
+        }
+        if (reader.GetDevice()) {
             ScheduleNextPoll(reader.GetDevice(), currentTime);
         }
     } while (!reader.GetRegisters().empty());
-- 
2.43.0

