From 2e5376658ebbf0c0c70a9f7dbd1230992efa6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 01/47] fix: UTCTime >= and <= must compare nanoseconds when
 the seconds are equal

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..8574771 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,8 +28,8 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
-                              : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
+    return (sec > other.sec) ? true
+                             : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
 {
@@ -38,8 +38,8 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
-                              : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
+    return (sec < other.sec) ? true
+                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
 bool UTCTime::operator==(const UTCTime& other) const
-- 
2.43.0


From fee9d61662a40beaef33a3344fac9d87bb8e8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 02/47] fix: fromGPS/fromGlonass convert the millisecond
 remainder to nanoseconds, not seconds

---
 common/utctime.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8574771..525932b 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -200,7 +200,7 @@ UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
     out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -238,7 +238,7 @@ UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
     out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From 584eb9b31267084f572bf2df38823a859c3a921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 03/47] fix: fromGlonassTimeOfDay returns the time closest to
 the reference, also across midnight

---
 common/utctime.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 525932b..319f390 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -213,6 +213,16 @@ UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
     UTCTime out = UTCTime::fromGlonass(glonass_week, glonass_tow_ms);
+
+    // The time of day may belong to the day before or after the reference
+    if (out - SEC_IN_DAY / 2 > ref)
+    {
+        out -= SEC_IN_DAY;
+    }
+    else if (out + SEC_IN_DAY / 2 < ref)
+    {
+        out += SEC_IN_DAY;
+    }
     return out;
 }
 
-- 
2.43.0


From 966346e70ef538924d832a99842c89be0bb3a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 04/47] fix: GPS subframe 3 keeps its own issue of data instead
 of the one last seen in subframe 1 or 2

---
 common/ephemeris/gps.cxx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..9efa648 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -178,7 +178,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From c5c7fc08420f2d5e487ddf0a160c9de17b3beb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 05/47] fix: GPS subframe collection starts over after an
 ephemeris is released

---
 common/ephemeris/gps.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index 9efa648..02616bf 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -96,6 +96,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0x00;
 
     return true;
 }
-- 
2.43.0


From 1c2db41f2827d841e6fffe60b6fd71cea5301840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 06/47] fix: GPS time of week, anti-spoof flag and age of data
 offset are decoded, not left uninitialised

---
 common/ephemeris/gps.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index 02616bf..94938c1 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -109,7 +109,8 @@ bool GPSEphemeris::frame1(const uint8_t* buf)
         return false;
     }
     dbg("GOT FRAME 1");
-    // double tow = getBit<17>(buf, 24) * 6.0;
+    tow = getBit<17>(buf, 24) * 6;
+    anti_spoof = getBit<1>(buf, 42);
     int week_mod = getBit<10>(buf, 48);  // This is the week modulo 2^10
     code_on_L2 = getBit<2>(buf, 58);
     ura = getBit<4>(buf, 60);
@@ -154,6 +155,7 @@ bool GPSEphemeris::frame2(const uint8_t* buf)
     sqrta = getBit<32>(buf, 184) * P2_19;
     toes = getBit<16>(buf, 216) * 16.0;
     fit_interval_flag = getBit<1>(buf, 232) ? 0.0 : 4.0;
+    age_of_data_offset = getBit<5>(buf, 233) * 900;
 
     iode2 = iode;
     collected_subframes |= FRAME2;
-- 
2.43.0


From 1849fbd29302801df8413e82dfddd6b152d8392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 07/47] fix: Galileo data validity status bits follow the two
 2-bit signal health fields

---
 common/ephemeris/galileo.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..235b752 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -277,8 +277,8 @@ bool GalileoEphemeris::frame5(const uint8_t* buf)
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
     // week = getBit<12>(buf, 72);
     // tow = getBit<20>(buf, 84); // Use frame 0 for time
 
-- 
2.43.0


From e7ac526cc6f81413575858f3302d0d275c361bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 08/47] fix: Galileo ionosphere coefficients are decoded from
 word 5, not left uninitialised

---
 common/ephemeris/galileo.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 235b752..20874d5 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -273,6 +273,9 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
 bool GalileoEphemeris::frame5(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
+    ai0 = getBit<11>(buf, 6) * 0.25;                   // 2^-2
+    ai1 = getBit<11, Signed>(buf, 17) * 0.00390625;    // 2^-8
+    ai2 = getBit<14, Signed>(buf, 28) * P2_5 / 1024.;  // 2^-15
     bgd_e1_e5a = getBit<10, Signed>(buf, 47) * P2_32;
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
-- 
2.43.0


From a499dc1ed3fb66ce95fed846706f817dcac69dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 09/47] fix: reject Galileo pages shorter than the eight words
 that are read

---
 common/ephemeris/galileo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 20874d5..fdfce4c 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Incomplete Galileo page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
-- 
2.43.0


From 0dae0b2d709397ca90a39bdf6b340c0dd4b36ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 10/47] fix: Galileo word 4 of another satellite no longer
 overwrites the collected clock parameters

---
 common/ephemeris/galileo.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index fdfce4c..67e6fcf 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -252,8 +252,13 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
+    if (svid != sat)
+    {
+        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
+        return false;
+    }
+    iod[3] = getBit<10>(buf, 6);
     cic = getBit<16, Signed>(buf, 22) * P2_29;
     cis = getBit<16, Signed>(buf, 38) * P2_29;
     tocs = getBit<14>(buf, 54) * 60.0;
@@ -266,11 +271,6 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
         return false;
     }
-    if (svid != sat)
-    {
-        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
-        return false;
-    }
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From df34b8ca086c0cea5bb602c3ed8c098dfb9cc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 11/47] fix: Galileo word collection starts over after an
 ephemeris is released

---
 common/ephemeris/galileo.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 67e6fcf..a1a8bb7 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -178,6 +178,9 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
     toe = UTCTime::fromGalileo(week, toes * 1000);
     toc = UTCTime::fromGalileo(week, tocs * 1000.0);
 
+    // Start over, so that the week is not rolled over again
+    collected_subframes = 0x00;
+
     return true;
 }
 
-- 
2.43.0


From f5758fde2f612a46ff41dcbfff717d262845d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:26 +0000
Subject: [PATCH 12/47] fix: GLONASS ephemeris time uses the current day N_T,
 not the almanac day N_A

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..00913f4 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
         Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From 230f8cc79105a5e634f90334d41f3b22dc8d3202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:00 +0000
Subject: [PATCH 13/47] fix: circular buffer element lifetimes (pop_back
 destroyed the end slot, push assigned into raw memory), alignment and
 implicit copies

---
 common/circular_buffer.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..bdc9fa0 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -17,6 +17,10 @@ class CircularBuffer
 
     CircularBuffer() = default;
 
+    // the iterators point into this object
+    CircularBuffer(const CircularBuffer&) = delete;
+    CircularBuffer& operator=(const CircularBuffer&) = delete;
+
     ~CircularBuffer() { clear(); }
     const_iterator begin() const { return head_; }
     const_iterator end() const { return tail_; }
@@ -54,8 +58,8 @@ class CircularBuffer
     }
     void pop_back()
     {
+        --tail_;
         tail_->~T();  // call destructor manually without freeing memory
-        tail_--;
     }
 
     template <typename... Args>
@@ -71,7 +75,7 @@ class CircularBuffer
     {
         if (full())
             pop_front();
-        *tail_ = obj;
+        new (&*tail_) T(obj);
         ++tail_;
     }
 
@@ -90,14 +94,14 @@ class CircularBuffer
             pop_back();
 
         --head_;
-        *head_ = obj;
+        new (&*head_) T(obj);
     }
 
     T* data() { return buf_; }
     const T* data() const { return buf_; }
 
  private:
-    uint8_t memory_[SIZE * sizeof(T)];
+    alignas(T) uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
     iterator head_ = {buf_, this};
-- 
2.43.0


From 1cbf50352d9abe9ec22eceef1149300cea2fabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 14/47] fix: describe only the serialized ephemeris fields in
 log headers

The GPS, Galileo and GLONASS headers listed the parsers' working state, which
serialize() does not write, so the described record was longer than the logged one.
---
 common/logging/log_format.cxx | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/common/logging/log_format.cxx b/common/logging/log_format.cxx
index 0727f19..e185b43 100644
--- a/common/logging/log_format.cxx
+++ b/common/logging/log_format.cxx
@@ -64,10 +64,6 @@ YAML::Node format(const ephemeris::GPSEphemeris& eph)
     node["fit_interval_flag"] = format(eph.fit_interval_flag);
     node["age_of_data_offset"] = format(eph.age_of_data_offset);
     node["tgd"] = format(eph.tgd);
-    node["iode1"] = format(eph.iode1);
-    node["iode2"] = format(eph.iode2);
-    node["iode3"] = format(eph.iode3);
-    node["collected_subframes"] = format(eph.collected_subframes);
     return node;
 }
 YAML::Node format(const ephemeris::GalileoEphemeris& eph)
@@ -114,9 +110,6 @@ YAML::Node format(const ephemeris::GalileoEphemeris& eph)
     node["e1b_hs"] = format(eph.e1b_hs);
     node["e5b_dvs"] = format(eph.e5b_dvs);
     node["e1b_dvs"] = format(eph.e1b_dvs);
-    node["collected_subframes"] = format(eph.collected_subframes);
-    node["time_f"] = format(eph.time_f);
-    node["iod"] = format(eph.iod, 4);
     return node;
 }
 
@@ -140,15 +133,6 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["taun"] = format(eph.taun);
     node["gamn"] = format(eph.gamn);
     node["dtaun"] = format(eph.dtaun);
-    node["frame_flags"] = format(eph.frame_flags_);
-    node["time_mark"] = format(eph.time_mark_);
-    node["tk_h"] = format(eph.tk_h_);
-    node["tk_m"] = format(eph.tk_m_);
-    node["tk_s"] = format(eph.tk_s_);
-    node["tb"] = format(eph.tb_);
-    node["NT"] = format(eph.NT_);
-    node["N4"] = format(eph.N4_);
-    node["NA"] = format(eph.NA_);
     return node;
 }
 
-- 
2.43.0


From f7456ad7ae3ca33ee85bd4735e798835d59c52ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 15/47] fix: serialize the GLONASS reference time once

toe was written a second time after age, where the header describes tof.
---
 common/logging/serialize.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/serialize.cxx b/common/logging/serialize.cxx
index 4bc5653..0af09b8 100644
--- a/common/logging/serialize.cxx
+++ b/common/logging/serialize.cxx
@@ -107,7 +107,7 @@ DEF_SERIALIZE(ephemeris::GalileoEphemeris,
               ecc, sqrta, omega0, i0, w, omegadot, idot, cuc, cus, crc, crs, cic, cis, ai0, ai1, ai2,
               bgd_e1_e5a, bgd_e1_e5b, e5b_hs, e1b_hs, e5b_dvs, e1b_dvs)
 DEF_SERIALIZE(ephemeris::GlonassEphemeris,
-              gnssID, sat, toe, iode, slot, svh, sva, age, toe, tof, pos, vel, acc, taun, gamn,
+              gnssID, sat, toe, iode, slot, svh, sva, age, tof, pos, vel, acc, taun, gamn,
               dtaun)
 // clang-format on
 
-- 
2.43.0


From 6d86ff3252fd6556b1d380d9d5d02d7cf41e2f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:14 +0000
Subject: [PATCH 16/47] fix: give every unnamed log key its own stream name

Centring with zero fill named keys 12 and 120 (and 120 and 1200) alike or
ambiguously, e.g. 120 and 1200 both became LOG_KEY_1200.
---
 common/logging/log_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/log_key.h b/common/logging/log_key.h
index c552103..60040d7 100644
--- a/common/logging/log_key.h
+++ b/common/logging/log_key.h
@@ -52,7 +52,7 @@ inline std::string logKeyName(int key)
     case ESTIMATE:
         return "ESTIMATE";
     default:
-        return fmt::format("LOG_KEY_{:0^4}", key);
+        return fmt::format("LOG_KEY_{:0>4}", key);
     }
 }
 
-- 
2.43.0


From 495d8471bb037bae7dd115f46b202b688733cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 17/47] fix: RETURN_OR_ASSIGN evaluates its operand once

---
 common/error_result.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/common/error_result.h b/common/error_result.h
index 0e349fc..5ec15fa 100644
--- a/common/error_result.h
+++ b/common/error_result.h
@@ -3,13 +3,14 @@
 #include "common/check.h"
 #include "common/error.h"
 
-#define RETURN_OR_ASSIGN(err_result) \
-    ({                               \
-        if (!err_result.ok())        \
-        {                            \
-            return err_result.err(); \
-        }                            \
-        err_result.res();            \
+#define RETURN_OR_ASSIGN(err_result)        \
+    ({                                      \
+        const auto& result_ = (err_result); \
+        if (!result_.ok())                  \
+        {                                   \
+            return result_.err();           \
+        }                                   \
+        result_.res();                      \
     })
 
 namespace mc {
-- 
2.43.0


From 531d42983e460af96aae0de06fda37281bd0a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 18/47] fix: post_process logs the estimate with the types
 declared for its stream

---
 tools/post_process.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index 72dd258..b0d2581 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -222,7 +222,7 @@ int main(int argc, char** argv)
         }
         log_writer.log(logging::ESTIMATE, ekf.t(), ekf.x().pose, ekf.x().vel, ekf.u().gyro,
                        ekf.u().accel, ekf.p_ecef(), ekf.x().gps_clk, ekf.x().gal_clk,
-                       ekf.x().glo_clk, ekf.cov());
+                       ekf.x().glo_clk);
 
         return Error::none();
     });
-- 
2.43.0


From a7172b837e8269dd99dfe0873e6a41d79a7166c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 19/47] fix: PID anti-windup compares the integral term with
 what saturation leaves for it

---
 sim/controllers/pid.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/controllers/pid.cxx b/sim/controllers/pid.cxx
index f0b1744..7b7faa1 100644
--- a/sim/controllers/pid.cxx
+++ b/sim/controllers/pid.cxx
@@ -67,7 +67,7 @@ double PID::run(double dt, double x, double x_c, bool update_integrator, double
     double u_sat = (u > options_.max)
                        ? options_.max
                        : (u < (double)-1.0 * options_.max) ? (double)-1.0 * options_.max : u;
-    if (u != u_sat && abs(i_term) > abs(u - p_term + d_term) && options_.ki > (double)0.0)
+    if (u != u_sat && abs(i_term) > abs(u_sat - p_term + d_term) && options_.ki > (double)0.0)
         integrator_ = (u_sat - p_term + d_term) / options_.ki;
 
     // Set output
-- 
2.43.0


From 422af41cbdc5fb04ea7475f70226c7038de2ace3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 20/47] fix: Kepler satellite clock uses the clock reference
 time for every term and the derivative for its rate

---
 common/satellite/satellite_state.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..cc97172 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -93,13 +93,13 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
-    sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(0) = dts;                                 // satellite clock bias (sec)
+    sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From 5e09bdc70b579b9d80dadf1b27b5118dd43b7b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 21/47] fix: dual quaternion logarithm of small rotations uses
 the series of its closed form (wrong scale of the translation, wrong sign at
 q = -1)

---
 common/math/dquat.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index dc77701..1ce3ac6 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -296,10 +296,9 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T th4 = th2 * th2;
-            const T th6 = th4 * th2;
-            const T a = 1. - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
-            const T c =
-                5. / 24. - 379. / 1920. * th2 + 46073. / 322560. * th4 - 127431. / 1146880. * th6;
+            // a = atan(th / r0) / th, c = (r0 - a) / th2
+            const T a = 1. / r0 - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
+            const T c = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * th2;
             // clang-format off
             wv << (T)2.0 * a * r,
                   (T)2.0 * (a * d + (gm*c - d0)*r);
@@ -349,10 +348,9 @@ class DQuat
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
             const T s4 = s2 * s2;
-            const T s6 = s4 * s2;
-            const T a1 = 1. - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
-            const T c1 =
-                5. / 24. - 379. / 1920. * s2 + 46073. / 322560. * s4 - 127431. / 1146880. * s6;
+            // a1 = atan(s / r0) / s, c1 = (r0 - a1) / s2
+            const T a1 = 1. / r0 - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
+            const T c1 = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * s2;
             v = (T)2.0 * (a1 * d + (gm * c1 - d0) * r);
 
             const double th4 = th2 * th2;
-- 
2.43.0


From e01a49c031c964ea890efac03c4f3ecd31910dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 22/47] fix: SO3 logarithm near half a turn returned the
 logarithm of the transpose

---
 common/math/so3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index bc509cb..3e81226 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -162,7 +162,8 @@ class SO3
             auto v = qarr.template tail<3>();
             T& w = qarr[0];
             T norm_v = v.norm();
-            return 2.0 * std::atan2(norm_v, w) * v / norm_v;
+            // the quaternion above is that of the transpose
+            return -2.0 * std::atan2(norm_v, w) * v / norm_v;
         }
     }
 
-- 
2.43.0


From 64e110fadd04637a278853b977144f791f30c835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 23/47] fix: SO3 logarithm near half a turn gives the Jacobian
 of the other branches, not its negative

---
 common/math/so3.h | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 3e81226..f5cce79 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -204,8 +204,6 @@ class SO3
         else  // theta close to Pi
         {
             // First, go to quaternion, then compute the axis-angle
-            // Because the quaternion log is inverse the rotation log,
-            // we need to return the negative transpose of the quaternion jacobian
             Quat<T> q = Quat<T>::from_R(rot_);
             w = -q.log();
             const T th2 = w.squaredNorm();
@@ -213,13 +211,6 @@ class SO3
             a = sin(th) / th;
             b = (1 - cos(th)) / th2;
             c = (1 - a) / th2;
-
-            // log_q = log_Rᵀ
-            const T e = (b - 2 * c) / (2 * a);
-            const Mat3 sk_w = skew(w);
-            *jac = -Mat3::Identity() + 1. / 2. * sk_w - e * sk_w * sk_w;
-
-            return w;
         }
 
         const T e = (b - 2 * c) / (2 * a);
-- 
2.43.0


From 3350486c4875d954dd29086b9f42ed4674743490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 24/47] fix: DQuat built from eight scalars maps its
 quaternions onto them

---
 common/math/dquat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index 1ce3ac6..19bf0ac 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -81,8 +81,9 @@ class DQuat
           const T& dx,
           const T& dy,
           const T& dz)
-        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_)
+        : DQuat(buf_)
     {
+        arr_ << rw, rx, ry, rz, dw, dx, dy, dz;
     }
 
     DQuat(const Eigen::Ref<const Vec8> arr) : DQuat(arr.data()) {}
-- 
2.43.0


From 4aa8ec3c1d6354efc44e1fa5dfafd88325e3eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 25/47] fix: factor models' Jacobian helpers get internal
 linkage (same names were defined differently in several files)

---
 models/gnss_dynamics_model.cxx          | 4 ++++
 models/imu_model.cxx                    | 4 ++++
 models/prange_model.cxx                 | 4 ++++
 models/relative_carrier_phase_model.cxx | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/models/gnss_dynamics_model.cxx b/models/gnss_dynamics_model.cxx
index 63886f8..064572f 100644
--- a/models/gnss_dynamics_model.cxx
+++ b/models/gnss_dynamics_model.cxx
@@ -10,6 +10,8 @@ GnssDynamics::GnssDynamics(const UTCTime& t0, const UTCTime& tf, const Vec3& Xi)
 {
 }
 
+namespace {
+
 template <int N>
 struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>
 {
@@ -19,6 +21,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto sw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool GnssDynamics::Evaluate(const double* const* parameters,
                             double* residuals,
                             double** jacobians) const
diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..6ba529a 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -132,6 +132,8 @@ Error ImuModel::finished()
     return Error::none();
 }
 
+namespace {
+
 struct PoseJacobian
 {
     PoseJacobian(double* ptr) : mat(ptr) {}
@@ -153,6 +155,8 @@ struct PoseJacobian
     Map<Matrix<double, 9, 8, RowMajor>> mat;
 };
 
+}  // namespace
+
 bool ImuModel::Evaluate(const double* const* parameters, double* _res, double** _jac) const
 {
     const math::DQuat<double> start_pose(parameters[0]);
diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..6a53161 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -52,6 +52,8 @@ double PseudorangeModel::computeSagnac(const Vec3& rec_pos_ecef)
            C_LIGHT;
 }
 
+namespace {
+
 struct PoseJacobian final : public MatRM36
 {
     auto drho_drot() { return block<1, 3>(0, 0); }
@@ -72,6 +74,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto dsw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool PseudorangeModel::Evaluate(const double* const* parameters,
                                 double* _residual,
                                 double** jacobians) const
diff --git a/models/relative_carrier_phase_model.cxx b/models/relative_carrier_phase_model.cxx
index 3b9c9df..2e9bde9 100644
--- a/models/relative_carrier_phase_model.cxx
+++ b/models/relative_carrier_phase_model.cxx
@@ -63,6 +63,8 @@ void RelativeCarrierPhase::computeSatState(const meas::GnssObservation& obs,
     }
 }
 
+namespace {
+
 struct PoseJacobian final : public Vec6
 {
     auto drot() { return head<3>(); }
@@ -71,6 +73,8 @@ struct PoseJacobian final : public Vec6
     Vec8 by_elements(const DQ& Q) { return (*this).transpose() * Q.dGenDParam(); }
 };
 
+}  // namespace
+
 bool RelativeCarrierPhase::Evaluate(const double* const* parameters,
                                     double* residual,
                                     double** jacobians) const
-- 
2.43.0


From a1eba55f8a63511b38285064cc37f69a4f0a9c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 26/47] fix: IMU factor applies the bias correction relative to
 the bias it was integrated with

---
 models/imu_model.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index 6ba529a..03beb14 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -169,7 +169,7 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
     Map<Vec9> residual(_res);
 
-    const ImuErrorState bias_adjustment = dStatedBias() * bias;  //(bias - bias_);
+    const ImuErrorState bias_adjustment = dStatedBias() * (bias - bias_);
     ImuState adjusted_state = state() + bias_adjustment;
 
     const double dt = delta_t();
-- 
2.43.0


From eea5c6ae9d9daaac73a70f0cd6f52d45da37c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 27/47] fix: IMU factor pose Jacobians hold at any attitude,
 not only where the differentiated pose is unrotated

---
 models/imu_model.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index 03beb14..2764f44 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -195,9 +195,9 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
             jac.dr1_drot() = skew(start_pose.rotation().rotp(
                 end_pose.translation() - start_pose.translation() - 0.5 * GRAVITY * dt * dt));
             jac.dr2_drot() = -dt * skew(start_pose.rotation().rotp(GRAVITY));
-            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R();
 
-            jac.dr1_dpos() = -start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = -Mat3::Identity();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
@@ -210,9 +210,11 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
             jac.dr1_drot().setZero();
             jac.dr2_drot().setZero();
-            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R() *
+                             end_pose.rotation().R().transpose();
 
-            jac.dr1_dpos() = start_pose.rotation().R().matrix();
+            jac.dr1_dpos() =
+                (start_pose.rotation().R() * end_pose.rotation().R().transpose()).matrix();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
-- 
2.43.0


From a6e7293230244800dc48253b38f348acd25b993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:43 +0000
Subject: [PATCH 28/47] fix: pseudorange factor Jacobians weighted by the whole
 square-root information, like the residual

---
 models/prange_model.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 6a53161..66f561e 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -72,6 +72,7 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto drho() { return this->row(0); }
     auto ddop() { return this->row(1); }
     auto dsw() { return this->row(2); }
+    void weight(const Mat3& W) { this->noalias() = W * (*this).eval(); }
 };
 
 }  // namespace
@@ -136,17 +137,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         {
             VecJacobian<3> jac(jacobians[1]);
             jac.drho().setZero();
-            jac.ddop() = sw_var * -e.T * sqrt_inv_cov_(1, 1) * R_E2n.T * R_n2b.T;
+            jac.ddop() = sw_var * -e.T * R_E2n.T * R_n2b.T;
             jac.dsw().setZero();
+            jac.weight(sqrt_inv_cov_);
         }
 
         // res_by_clk
         if (jacobians[2])
         {
             VecJacobian<2> jac(jacobians[2]);
-            jac.drho() << sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(0, 0), 0;
-            jac.ddop() << 0, sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(1, 1);
+            jac.drho() << sw_var * C_LIGHT / 1e9, 0;
+            jac.ddop() << 0, sw_var * C_LIGHT / 1e9;
             jac.dsw().setZero();
+            jac.weight(sqrt_inv_cov_);
         }
 
         // res_by_T_r2n
@@ -166,17 +169,17 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         if (jacobians[4])
         {
             Eigen::Map<Vec3> jac(jacobians[4]);
-            jac(0) = sqrt_inv_cov_(0, 0) * (est_prange - obs_.pseudorange);
-            jac(1) = sqrt_inv_cov_(1, 1) * (est_doppler - obs_.doppler);
-            jac(2) = -sqrt_inv_cov_(2, 2);
+            jac = sqrt_inv_cov_ *
+                  Vec3(est_prange - obs_.pseudorange, est_doppler - obs_.doppler, -1.0);
         }
         // res_by_p_b2g
         if (jacobians[5])
         {
             VecJacobian<3> jac(jacobians[5]);
-            jac.drho() = -sw_var * sqrt_inv_cov_(0, 0) * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
+            jac.drho() = -sw_var * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
             jac.ddop().setZero();
             jac.dsw().setZero();
+            jac.weight(sqrt_inv_cov_);
         }
     }
 
-- 
2.43.0


From 5e80400fc36f33345cda95c5233cc3a29586f564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 29/47] fix: isFinite of matrices refuses infinities, like the
 scalar one

---
 common/matrix_defs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/matrix_defs.h b/common/matrix_defs.h
index 9859b6a..efef384 100644
--- a/common/matrix_defs.h
+++ b/common/matrix_defs.h
@@ -147,13 +147,13 @@ bool isNan(const Eigen::MatrixBase<Derived>& m)
 template <typename Derived>
 bool isFinite(const Eigen::MatrixBase<Derived>& m)
 {
-    return (m.array() == m.array()).all();
+    return m.allFinite();
 }
 
 template <typename Derived>
 bool isFinite(const Eigen::DiagonalBase<Derived>& m)
 {
-    return (m.diagonal().array() == m.diagonal().array()).all();
+    return m.diagonal().allFinite();
 }
 
 const Vec3 GRAVITY = 9.80665 * Vec3::UnitZ();
-- 
2.43.0


From 847a5f8ddf7fd87a5c52f8001cb4c04e3f7d7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 30/47] fix: generated filter code no longer depends on
 Python's hash order (argument lists were sets)

---
 core/ekf/ekf_gen/ekf_gen.py              | 10 +++++-----
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 18 +++++++++---------
 core/ekf/ekf_gen/ekf_gen_state.py        | 24 ++++++++++++------------
 core/ekf/ekf_gen/ekf_gen_utils.py        |  5 +++++
 core/ekf/rtk_ekf_impl.cxx                |  4 ++--
 5 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index f2a8de9..85c7167 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -12,7 +12,7 @@ from numpy.lib.arraysetops import isin
 from core.ekf.ekf_gen.ekf_gen_test import gen_test
 from core.ekf.ekf_gen.ekf_gen_utils import (
     accumulate_expr, make_camel, make_snake, State, includes, begin_namespaces, end_namespaces,
-    get_matching_elements, jac_member_name
+    get_matching_elements, jac_member_name, unique
 )
 from core.ekf.ekf_gen.ekf_gen_templates import DO_UPDATE_TEMPLATE, EKF_HEADER_TEMPLATE, EKF_IMPL_TEMPLATE, TYPE_HEADER_TEMPLATE, TYPE_IMPL_TEMPLATE
 from core.ekf.ekf_gen.ekf_gen_matrix_manip import block_sparse_propagate_covariance, sparse_meas_update
@@ -79,9 +79,9 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"Mat<{sr.dx}, {sc.dx}> {jac_member_name(sr, sc)};")
                 if sr.variable and sr.name == None:
                     # Per-observation block accessor
-                    args = {f"int idx"}
+                    args = ["int idx"]
                     if sc.variable:
-                        args.add(f"int {sc.counter_var}")
+                        args.append(f"int {sc.counter_var}")
                     start_idx = f"idx * {sr.base_dx}"
                     block = f"{buffer_name(sr,sc)}.block({start_idx}, 0, {sr.base_dx}, {dim(sc)})"
                     decl = f"inline auto {jac_member_name(sr, sc)}({', '.join(args)})"
@@ -90,7 +90,7 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"{decl} const {impl}")
 
                 if sr.variable or sc.variable:
-                    args = {f"int {s.counter_var}" for s in [sr, sc] if s.variable}
+                    args = unique(f"int {s.counter_var}" for s in [sr, sc] if s.variable)
                     block = f"{buffer_name(sr, sc)}.block(0, 0, {dim(sr)}, {dim(sc)})"
                     fname = f"inline auto {jac_member_name(sr, sc)}"
                     if sr.variable and sr.name == None:
@@ -196,7 +196,7 @@ def make_jacobian_dense_impl(matrix, name, row_states, col_states):
         col_expr = 0
         for c, cs in enumerate(col_states):
             if rs.variable or cs.variable:
-                args = {f"{s.counter_var}" for s in (rs, cs) if s.variable}
+                args = unique(f"{s.counter_var}" for s in (rs, cs) if s.variable)
                 assigner = f"out.block({row_expr}, {col_expr}, {dim(rs)}, {dim(cs)})"
                 fname = f"{jac_member_name(rs, cs)}"
                 if rs.variable and rs.name == None:
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 791d07d..b1b2ab9 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -3,7 +3,7 @@ import re
 from core.ekf.ekf_gen.symb_algebra import reduce
 from core.ekf.ekf_gen.symb_matrix import ConstBlock
 from core.ekf.ekf_gen.symb_block_matrix import SymBlockMatrix
-from core.ekf.ekf_gen.ekf_gen_utils import State, make_camel, jac_member_name, accumulate_expr
+from core.ekf.ekf_gen.ekf_gen_utils import State, make_camel, jac_member_name, accumulate_expr, unique
 
 symbol_varname = {"transpose": "transpose"}
 
@@ -49,7 +49,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = unique(s.counter_var for s in [rstate, cstate] if s.variable)
                     symbol_varname[name] = f"dxdx.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdx.{name}"
@@ -66,7 +66,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = unique(s.counter_var for s in [rstate, cstate] if s.variable)
                     symbol_varname[name] = f"dxdu.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdu.{name}"
@@ -85,7 +85,7 @@ def create_symbolic_covariance(cfg, var_name):
         if not rs.variable and not cs.variable:
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
-            args = ', '.join({f"{s.counter_var}" for s in [rs, cs] if s.variable})
+            args = ', '.join(unique(f"{s.counter_var}" for s in [rs, cs] if s.variable))
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}({args})"
 
     for r, rstate in enumerate(states):
@@ -192,7 +192,7 @@ def commit_mat_inplace_modify(matrix, var, modify_type='-', symmetric=False):
             expr = matrix[r, c]
             if not expr.is_zero:
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = unique(f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str))
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} {modify_type}= {impl_expr(expr)};")
                     out.append("}}")
@@ -214,7 +214,7 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     continue
                 expr = matrix[r, c]
                 if expr.is_variable():
-                    sizes = {f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str)}
+                    sizes = unique(f"({s} > 0)" for s in (expr.rows, expr.cols) if isinstance(s, str))
                     out.append(f"if ({' && '.join(sizes)}) {{{{")
                     out.append(f"    {impl_expr(var[r,c])} = {impl_expr(expr)};")
                     out.append("}}")
@@ -253,11 +253,11 @@ def commit_mat(matrix, var, symmetric=False, dense=False, const=True, already_ch
                     expr_text = make_type(expr)
                     symbol_varname[f"{name}_init"] = name
                     out.append(f"{expr_text} {{{name}_init}};")
-                    sizes = {
+                    sizes = unique(
                         f"({s} > 0)"
                         for s in (expr.rows, expr.cols)
                         if isinstance(s, str) and s not in already_checked_size
-                    }
+                    )
                     if len(sizes) > 0:
                         out.append(f"if ({' && '.join(sizes)}) {{{{")
                     sub_name = f"{name}.block(0, 0, {expr.rows}, {expr.cols})"
@@ -343,7 +343,7 @@ def create_symbolic_measurement_jacobian(cfg, key):
             name = f"{jac_member_name(sr, sc)}"
             dzdx.append(ConstBlock(name, dim(meas_state), dim(sc), sr.dx, sc.dx))
             if meas_state.variable or sc.variable:
-                args = {s.counter_var for s in (meas_state, sc) if s.variable}
+                args = unique(s.counter_var for s in (meas_state, sc) if s.variable)
                 symbol_varname[
                     name] = f"dzdx.{name}{'_all' if meas_state.variable else ''}({','.join(args)})"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..092066c 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -2,19 +2,19 @@ from itertools import accumulate
 
 from core.ekf.ekf_gen.ekf_gen_templates import STATE_HEADER_TEMPLATE, STATE_IMPL_TEMPLATE
 from core.ekf.ekf_gen.ekf_gen_utils import (
-    accumulate_expr, make_camel, begin_namespaces, end_namespaces
+    accumulate_expr, make_camel, begin_namespaces, end_namespaces, unique
 )
 
 
 def state_using_statements(cfg):
     states = cfg['state_composition']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = unique(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
 def input_using_statements(cfg):
     states = cfg['input']
-    needed_types = {s.type for s in states if s.manifold}
+    needed_types = unique(s.type for s in states if s.manifold)
     return "\n    ".join(f"using {t} = math::{t}<double>;" for t in needed_types)
 
 
@@ -48,7 +48,7 @@ def error_state_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -149,7 +149,7 @@ def covariance_members(cfg):
             if not s1.variable and not s2.variable:
                 out.append(f"Mat<{s1.dx}, {s2.dx}> {member_name(s1, s2)};")
             if s1.variable or s2.variable:
-                args = {f"int {s.counter_var}" for s in [s1, s2] if s.variable}
+                args = unique(f"int {s.counter_var}" for s in [s1, s2] if s.variable)
                 block = f"{buffer_name(s1, s2)}.block(0, 0, {dim(s1)}, {dim(s2)})"
                 out.append(
                     f"inline auto {member_name(s1, s2)}({', '.join(args)}){{ return {block}; }}"
@@ -206,7 +206,7 @@ def covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -510,7 +510,7 @@ def input_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -535,7 +535,7 @@ def process_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -561,7 +561,7 @@ def input_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -670,7 +670,7 @@ def make_dense_vector(states, name):
     out = []
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = unique(f"int {s.counter_var}" for s in variable_states)
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -707,7 +707,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
     variable_col_states = [s for s in col_states if s.variable]
     if len(variable_rows_states) > 0 or len(variable_col_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_rows_states + variable_col_states}
+        args = unique(f"int {s.counter_var}" for s in variable_rows_states + variable_col_states)
     else:
         args = {}
         r_dx = sum([s.dx for s in fixed_rows_states])
@@ -729,7 +729,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
                 getter = f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
             assign = f"out.block({row_accum}, {col_accum}, {dim(rs)}, {dim(cs)})"
-            args = {s.counter_var for s in (rs, cs) if s.variable}
+            args = unique(s.counter_var for s in (rs, cs) if s.variable)
             if diagonal:
                 getter = f"{make_camel(rs.name)}.replicate({rs.counter_var}, 1).asDiagonal()"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_utils.py b/core/ekf/ekf_gen/ekf_gen_utils.py
index 3966652..eeac9f8 100644
--- a/core/ekf/ekf_gen/ekf_gen_utils.py
+++ b/core/ekf/ekf_gen/ekf_gen_utils.py
@@ -1,6 +1,11 @@
 import re
 
 
+def unique(items):
+    """Drop duplicates, keeping the order of first appearance (unlike a set, whose order varies)"""
+    return list(dict.fromkeys(items))
+
+
 def accumulate_expr(expr, dim):
     if isinstance(dim, str):
         return f"{expr} + {dim}"
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..e9d9420 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -215,8 +215,8 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
 
     if (jac)
     {
-        jac->dSd_all(num_sd, num_fix_and_hold).setZero();
-        jac->dSd_all(num_sd, num_fix_and_hold).diagonal().setConstant(-1.0);
+        jac->dSd_all(num_fix_and_hold, num_sd).setZero();
+        jac->dSd_all(num_fix_and_hold, num_sd).diagonal().setConstant(-1.0);
     }
 
     return res;
-- 
2.43.0


From 27dce1cf56d6fbf89a71b5316485b3bd27fc6d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 31/47] fix: copying or perturbing a filter state keeps its
 time

---
 core/ekf/ekf_gen/ekf_gen_state.py     | 2 +-
 core/ekf/ekf_gen/ekf_gen_templates.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 092066c..ccb4ad5 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -217,7 +217,7 @@ def covariance_dense_decl(cfg):
 def copy_state(cfg):
     states = cfg['state_composition']
 
-    out = []
+    out = ["t = other.t;"]
     for s in [s for s in states if not s.variable]:
         out.append(f"{s.name} = other.{s.name};")
     out.append("")
diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 8bfd700..383a991 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -264,6 +264,7 @@ void {ErrorState}::setZero()
 {State} {State}::operator+(const {ErrorState}& dx) const
 {{
     {State} xp;
+    xp.t = t;
     {BOXPLUS_IMPL}
     return xp;
 }}
-- 
2.43.0


From d10bd46c25297b700e80a06e6453a598ca17746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 32/47] fix: covariance made from a diagonal sets every block

---
 core/ekf/ekf_gen/ekf_gen_state.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index ccb4ad5..0688cd5 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -776,16 +776,24 @@ def covariance_dense(cfg):
 
 def covariance_from_process_cov(cfg):
     states = cfg["state_composition"]
+
+    def member_name(s1, s2):
+        name = f"{make_camel(s1.name)}_{make_camel(s2.name)}"
+        return name + "_buf_" if s1.variable or s2.variable else name
+
     out = []
-    for s in states:
-        if s.variable:
-            out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = tile(cov.{make_camel(s.name)}.asDiagonal(), {s.bundle_size}, {s.bundle_size});"
-            )
-        else:
-            out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)} = cov.{make_camel(s.name)}.asDiagonal();"
-            )
+    for r, s1 in enumerate(states):
+        for c, s2 in enumerate(states):
+            if c < r:
+                continue
+            if c > r:
+                out.append(f"{member_name(s1, s2)}.setZero();")
+            elif s1.variable:
+                out.append(
+                    f"{member_name(s1, s1)} = cov.{make_camel(s1.name)}.replicate({s1.bundle_size}, 1).asDiagonal();"
+                )
+            else:
+                out.append(f"{member_name(s1, s1)} = cov.{make_camel(s1.name)}.asDiagonal();")
     return "\n    ".join(out)
 
 
-- 
2.43.0


From 3a4b79cefd0e672132934ee6d333846e64cb97e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 33/47] fix: unused tails of variable-size filter blocks are
 zero where they are tested for finiteness or gated

---
 core/ekf/ekf_gen/ekf_gen.py              | 3 ++-
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 3 ++-
 core/ekf/ekf_gen/ekf_gen_state.py        | 9 +++++----
 core/ekf/rtk_ekf_impl.cxx                | 4 ++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index 85c7167..a02814d 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -46,7 +46,8 @@ def make_jacobian(name, matrix, row_states, col_states):
         for row in matrix:
             for sr, sc in row:
                 if sr.variable or sc.variable:
-                    out.append(f"Mat<{sr.dx}, {sc.dx}> {buffer_name(sr, sc)};")
+                    mat = f"Mat<{sr.dx}, {sc.dx}>"
+                    out.append(f"{mat} {buffer_name(sr, sc)} = {mat}::Zero();")
         return "\n    ".join(out)
 
     def dim(s):
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index b1b2ab9..a69e444 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -401,7 +401,8 @@ def sparse_meas_update(cfg, key):
     else:
         inverse = f"llt().solve(MatX::Identity(size_{meas_state.name}, size_{meas_state.name}))"
         inverse = "inverse()"
-        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv;")
+        mat = make_type(Sinv[0, 0])
+        HPHT_impl.append(f"{mat} Sinv = {mat}::Zero();")
         block_args = f"0,0,size_{meas_state.name},size_{meas_state.name}"
         HPHT_impl.append(f"Sinv.block({block_args}) = HPHT.block({block_args}).{inverse};")
     tmp = "\n    ".join(HPHT_impl)
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 0688cd5..cc9c6f9 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -24,7 +24,7 @@ def error_state_buffers(cfg):
 
     out = []
     for s in variable_states:
-        out.append(f"Vec<{s.dx}> {s.name}_buf_;")
+        out.append(f"Vec<{s.dx}> {s.name}_buf_ = Vec<{s.dx}>::Zero();")
 
     return "\n    ".join(out)
 
@@ -122,7 +122,8 @@ def covariance_buffers(cfg):
             if r > c:
                 continue
             if s1.variable or s2.variable:
-                out.append(f"Mat<{s1.dx}, {s2.dx}> {buffer_name(s1, s2)};")
+                mat = f"Mat<{s1.dx}, {s2.dx}>"
+                out.append(f"{mat} {buffer_name(s1, s2)} = {mat}::Zero();")
     return "\n    ".join(out)
 
 
@@ -578,8 +579,8 @@ def finite_state(cfg):
     for i, s in enumerate(fixed_states):
         out.append(f"is_finite &= mc::isFinite(x.{s.name});")
     for s in variable_states:
-        out.append(f"for (const auto& sub_field : x.{s.name}){{")
-        out.append("    is_finite &= mc::isFinite(sub_field);")
+        out.append(f"for (size_t i = 0; i < x.{s.counter_var}; ++i) {{")
+        out.append(f"    is_finite &= mc::isFinite(x.{s.name}[i]);")
         out.append("}")
     out.append("return is_finite;")
     return "\n    ".join(out)
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index e9d9420..9141f93 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -118,7 +118,7 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
     const math::Quat<double> q_b2e = (x.pose.rotation().inverse() * x.T_I2e.rotation());
     const Vec3 v_I2g_e = q_b2e.rotp(v_I2g_b);
 
-    obsMeas::Residual residual;
+    obsMeas::Residual residual = obsMeas::Residual::Zero();
 
     for (size_t i = 0; i < z.size(); ++i)
     {
@@ -207,7 +207,7 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
           "estimate.  num_sd = {}, num_fix_and_hold = {}",
           fmt(num_sd, num_fix_and_hold));
 
-    fixAndHoldMeas::Residual res;
+    fixAndHoldMeas::Residual res = fixAndHoldMeas::Residual::Zero();
     for (int i = 0; i < num_sd; ++i)
     {
         res[i] = (z[i] - x.sd[i])[0];
-- 
2.43.0


From d40a7a1376f129b93c647a133f554ceff0040523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 34/47] fix: filter's state Jacobian carries clock drift into
 clock bias

---
 core/ekf/rtk_ekf_impl.cxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 9141f93..cef0002 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -28,6 +28,10 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
         dVeldRot = -skew(acc);
 
         dxdx->dVel_dAccBias = -Mat3::Identity();
+
+        dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
+        dxdx->dGalClk_dGalClk(0, 1) = 1.0;
+        dxdx->dGloClk_dGloClk(0, 1) = 1.0;
     }
 
     if (dxdu)
@@ -65,6 +69,9 @@ ErrorState errorStateDynamics(const ErrorState& dx,
     out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
     out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
     out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
+    out.gps_clk(0) = dx.gps_clk(1);
+    out.gal_clk(0) = dx.gal_clk(1);
+    out.glo_clk(0) = dx.glo_clk(1);
     return out;
 }
 
-- 
2.43.0


From 2fc2d6d11c680f25840a251a59c5c1cc9687d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:42 +0000
Subject: [PATCH 35/47] fix: estimator passes each observation's constellation
 to the measurement model

---
 core/ekf/rtk_ekf_estimator.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index d3a6969..0e7b0f3 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -154,7 +154,8 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num),
+                     o.gnss_id});
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
-- 
2.43.0


From a70a8aa1171472c91f1b29d37b363b6d35f28463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 36/47] fix: estimator compares times with the filter's
 tolerance, replays late measurements exactly once and never empties its state
 history

---
 core/ekf/rtk_ekf_estimator.cxx | 12 +++++++-----
 core/ekf/rtk_ekf_estimator.h   | 23 ++++++++++++++---------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 0e7b0f3..90d7b26 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -62,7 +62,8 @@ void RtkEkfEstimator::dropOldMeasurements()
 
     const UTCTime t_start = measurements_.crbegin()->t - MAX_DELAY_AGE_S;
     measurements_.erase(measurements_.cbegin(), measurements_.lower_bound(Meas{t_start, {}}));
-    while (states_.front().x.t < t_start)
+    // always keep the newest state
+    while (states_.size() > 1 && states_.front().x.t < t_start)
     {
         states_.pop_front();
     }
@@ -93,7 +94,8 @@ void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const ImuMeas& z)
 
 void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const Input& z)
 {
-    if (meas_time > t())
+    // the state's time is quantized: compare with the same tolerance as the filter does
+    if (meas_time > x().t)
     {
         Snapshot& snap = states_.back();
         states_.emplace_back();
@@ -104,7 +106,7 @@ void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const Input& z)
 
 void RtkEkfEstimator::handlePointPos(const UTCTime& meas_time, const pointPosMeas& z)
 {
-    if (meas_time > t().quantized())
+    if (meas_time > x().t)
     {
         handleImu(meas_time, u());
     }
@@ -118,7 +120,7 @@ void RtkEkfEstimator::handlePointPos(const UTCTime& meas_time, const pointPosMea
 
 void RtkEkfEstimator::handleFixAndHold(const UTCTime& meas_time, const fixAndHoldMeas& z)
 {
-    if (meas_time > t().quantized())
+    if (meas_time > x().t)
     {
         handleImu(meas_time, u());
     }
@@ -145,7 +147,7 @@ void RtkEkfEstimator::handleFixAndHold(const UTCTime& meas_time, const fixAndHol
 void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
                                     const std::vector<meas::GnssObservation>& obs_bundle)
 {
-    if (meas_time > t().quantized())
+    if (meas_time > x().t)
     {
         handleImu(meas_time, u());
     }
diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 4037f19..7a6b44d 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -2,6 +2,7 @@
 
 #include <gtest/gtest_prod.h>
 
+#include <algorithm>
 #include <set>
 #include <variant>
 #include <vector>
@@ -118,19 +119,23 @@ class RtkEkfEstimator
 
         auto it = measurements_.insert(Meas{meas_time, z});
 
-        if (meas_time < t())
+        // Rewind to the last state that is not after this measurement.  (The state's time is
+        // quantized, and the stale check above guarantees that such a state exists.)
+        while (x().t > meas_time)
         {
-            // Out-of-order measurement.  We need to rewind to apply it.
-            MeasIterator catchup_begin = measurements_.lower_bound(Meas{meas_time, {}});
+            states_.pop_back();
+        }
 
-            // rewind the state buffer
-            while (t() > catchup_begin->t)
-            {
-                states_.pop_back();
-            }
+        // The other measurements at the time of that state are already part of it
+        if (!(meas_time > x().t))
+        {
+            handleMeas(*it);
         }
 
-        rollFilter(it, measurements_.end());
+        // Everything later has to be (re-)applied, each measurement once
+        const auto catchup_begin = std::find_if(measurements_.begin(), measurements_.end(),
+                                                [&](const Meas& m) { return m.t > x().t; });
+        rollFilter(catchup_begin, measurements_.end());
 
         dropOldMeasurements();
 
-- 
2.43.0


From 319d25aa52af7247c1241a7e213bc29c3ad3ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 37/47] fix: estimator refuses measurements its update cannot
 handle before touching its histories

---
 core/ekf/rtk_ekf_estimator.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 7a6b44d..d0cf120 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -107,8 +107,20 @@ class RtkEkfEstimator
 
         if constexpr (std::is_same_v<T, std::vector<meas::GnssObservation>>)
         {
+            if (2 * z.size() > obsMeas::MAX_SIZE)
+            {
+                error("Too many observations in bundle: {}", fmt(z.size()));
+                return Error::create("too many observations");
+            }
+
             for (const auto& obs : z)
             {
+                if (obs.t != meas_time)
+                {
+                    error("Observation timestamp {} does not match its bundle's {}",
+                          fmt(obs.t, meas_time));
+                    return Error::create("observation timestamps do not match");
+                }
                 if (!hasCache(obs.gnss_id, obs.sat_num))
                 {
                     warn("Unknown {} Satellite {}", fmt(obs.gnss_id, obs.sat_num));
@@ -117,6 +129,17 @@ class RtkEkfEstimator
             }
         }
 
+        if constexpr (std::is_same_v<T, fixAndHoldMeas>)
+        {
+            if (z.z.size() > fixAndHoldMeas::MAX_SIZE ||
+                static_cast<int>(z.z.size()) != x().num_sd)
+            {
+                error("Invalid number of fix-and-hold measurements: {}, num_sd: {}",
+                      fmt(z.z.size(), x().num_sd));
+                return Error::create("invalid number of fix-and-hold measurements");
+            }
+        }
+
         auto it = measurements_.insert(Meas{meas_time, z});
 
         // Rewind to the last state that is not after this measurement.  (The state's time is
-- 
2.43.0


From 01f4684220465792c9d863b2887d94db691d1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:50 +0000
Subject: [PATCH 38/47] fix: filter update moves the state against the
 residual's Jacobian (it moved away from every measurement)

---
 core/ekf/ekf_gen/ekf_gen_templates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 383a991..f293697 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -589,7 +589,10 @@ ErrorResult<typename Meas::Residual> update(Out<Snapshot> snap,
     check(isFinite(dzdx), "numerical issues in measurement jacobian");
     check(isFinite(res), "numerical issues in measurement residual");
 
-    const Error err = doUpdate<Meas>(snap, z, dzdx, R, res);
+    // The jacobian is that of the residual (not of the predicted measurement), so the correction
+    // that reduces the residual has the opposite sign.
+    const typename Meas::Residual innov = -res;
+    const Error err = doUpdate<Meas>(snap, z, dzdx, R, innov);
     if (!err.ok())
     {{
         return err;
-- 
2.43.0


From 33702ec950d7b2bd416eb465a80ae126f1f356c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 39/47] fix: UBX receiver got stuck on messages without payload

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 47145a4..3eb7111 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -226,7 +226,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             break;
         case GOT_LENGTH1:
             length_ |= (uint16_t)byte << 8;
-            parse_state_ = GOT_LENGTH2;
+            parse_state_ = length_ > 0 ? GOT_LENGTH2 : GOT_PAYLOAD;
             if (length_ > BUFFER_SIZE)
             {
                 warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
-- 
2.43.0


From 89bc2ab5e693060767942219bb9343646983db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 40/47] fix: reporting an overlong UBX message threw a format
 error

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 3eb7111..b677e4a 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -229,7 +229,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             parse_state_ = length_ > 0 ? GOT_LENGTH2 : GOT_PAYLOAD;
             if (length_ > BUFFER_SIZE)
             {
-                warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
+                warn("UBX message 0x{:x}-0x{:x} is too long ({} > {})",
                      fmt(message_class_, message_type_, length_, BUFFER_SIZE));
                 num_errors_++;
                 prev_byte_ = byte;
-- 
2.43.0


From 12b41b951f37d05203c5c8ac6a7df2fbd1129107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 41/47] fix: UBX version strings were not terminated

---
 parsers/ubx/ubx.cxx | 4 ++--
 parsers/ubx/ubx.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index b677e4a..32d3e03 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -439,7 +439,7 @@ void Ubx::versionCb()
 void Ubx::extractVersionString(const char *str)
 {
     // Get major version
-    char tmp[5];
+    char tmp[6] = {};
     const char *s = str + 8;
     for (int j = 0; j < 5; j++)
     {
@@ -472,7 +472,7 @@ void Ubx::extractVersionString(const char *str)
 void Ubx::extractModuleName(const char *str)
 {
     const char *s = str + 4;
-    for (size_t i = 0; i < sizeof(module_name_); i++)
+    for (size_t i = 0; i < sizeof(module_name_) - 1; i++)
     {
         if (*s == 0)
         {
diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index 119af75..f187f46 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -129,7 +129,7 @@ class Ubx : public async_comm::CommListener
 
     int major_version_;
     int minor_version_;
-    char module_name_[10];
+    char module_name_[10] = {};
 
     // Serial Port
     void write(const uint8_t byte);
-- 
2.43.0


From d74502df21afcbddf22d1f790b97be6c02c21230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:38 +0000
Subject: [PATCH 42/47] fix: UBX version report was read from uninitialised
 memory when short

---
 parsers/ubx/ubx.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index f187f46..c589dc3 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -127,8 +127,8 @@ class Ubx : public async_comm::CommListener
     // local storage
     volatile bool new_data_;
 
-    int major_version_;
-    int minor_version_;
+    int major_version_ = 0;
+    int minor_version_ = 0;
     char module_name_[10] = {};
 
     // Serial Port
@@ -139,7 +139,7 @@ class Ubx : public async_comm::CommListener
 
     // Main buffers for communication
     UbxMessage out_message_;
-    UbxMessage in_message_;
+    UbxMessage in_message_ = {};
 };
 
 }  // namespace ublox
-- 
2.43.0


From 4c88271e13b5ccd29996dfd208b2612bdee07265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 43/47] fix: refuse to read a log stream that cannot be opened

---
 common/logging/log_reader.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 6dc4295..db31366 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -52,7 +52,8 @@ fs::path getLatestLog(const fs::path& path)
 
 StreamReader::StreamReader(const std::string& filename)
 {
-    open(filename);
+    const Error err = open(filename);
+    check(err.ok(), "Unable to open log stream {}", fmt(filename));
 }
 
 StreamReader::~StreamReader()
-- 
2.43.0


From d2cce5c7edfd1573b89295b887b0ca08f5e03a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 44/47] fix: report measurements the post-processor's filter
 refuses

---
 tools/post_process.cxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/post_process.cxx b/tools/post_process.cxx
index b0d2581..68b468f 100644
--- a/tools/post_process.cxx
+++ b/tools/post_process.cxx
@@ -234,7 +234,11 @@ int main(int argc, char** argv)
                                ImuMeas meas;
                                meas.z.accel = imu.accel;
                                meas.z.gyro = imu.gyro;
-                               ekf.addMeasurement(t, meas);
+                               const Error err = ekf.addMeasurement(t, meas);
+                               if (!err.ok())
+                               {
+                                   warn("Dropped IMU sample at {}: {}", mc::fmt(t, err.what()));
+                               }
                            });
 
     std::vector<meas::GnssObservation> obs_bundle;
@@ -248,7 +252,11 @@ int main(int argc, char** argv)
 
         if ((reader.nextStamp() - t).toSec() > 0.01)
         {
-            ekf.addMeasurement(t, obs_bundle);
+            const Error err = ekf.addMeasurement(t, obs_bundle);
+            if (!err.ok())
+            {
+                warn("Dropped GNSS observations at {}: {}", mc::fmt(t, err.what()));
+            }
             obs_bundle.clear();
         }
     });
-- 
2.43.0


From 3140e1e3978acf9e0ca28d66343dc8570ba1a772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:47 +0000
Subject: [PATCH 45/47] fix: simulated receiver delivered ephemerides before
 their time or never, and read an empty queue

---
 sim/sensors/gnss.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 4128fe9..df44ac3 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -147,7 +147,7 @@ bool GnssSim::sample(const UTCTime& t,
 
 bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 {
-    if (std::get<UTCTime>(gps_ephemerides_.front()) >= t)
+    if (!gps_ephemerides_.empty() && std::get<UTCTime>(gps_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GPSEphemeris>(gps_ephemerides_.front());
         gps_ephemerides_.erase(gps_ephemerides_.begin());
@@ -158,7 +158,7 @@ bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 }
 bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> eph)
 {
-    if (std::get<UTCTime>(glo_ephemerides_.front()) >= t)
+    if (!glo_ephemerides_.empty() && std::get<UTCTime>(glo_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GlonassEphemeris>(glo_ephemerides_.front());
         glo_ephemerides_.erase(glo_ephemerides_.begin());
@@ -169,7 +169,7 @@ bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> ep
 }
 bool GnssSim::sampleGalEph(const UTCTime& t, Out<ephemeris::GalileoEphemeris> eph)
 {
-    if (std::get<UTCTime>(gal_ephemerides_.front()) >= t)
+    if (!gal_ephemerides_.empty() && std::get<UTCTime>(gal_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GalileoEphemeris>(gal_ephemerides_.front());
         gal_ephemerides_.erase(gal_ephemerides_.begin());
-- 
2.43.0


From f1adc2bc09da9f8e00e3b9ed5604d7d568a424da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:48 +0000
Subject: [PATCH 46/47] fix: simulated observations lacked the time they were
 taken

---
 sim/sensors/gnss.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index df44ac3..fd1fd7f 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -132,6 +132,7 @@ bool GnssSim::sample(const UTCTime& t,
             doppler += normal_(gen_) * options_.doppler_stdev_;
 
             obs->emplace_back();
+            obs->back().t = t;
             obs->back().pseudorange = pseudorange;
             obs->back().doppler = doppler;
             obs->back().carrier_phase = carrier_phase;
-- 
2.43.0


From ea8e5d30f474abe884e9c9c295413bf4a7a55039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:02 +0000
Subject: [PATCH 47/47] fix: ambiguity resolution read and wrote out of bounds
 for mismatched sizes or a single candidate

---
 core/solver/lambda.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/solver/lambda.cxx b/core/solver/lambda.cxx
index e3a84c4..0786da5 100644
--- a/core/solver/lambda.cxx
+++ b/core/solver/lambda.cxx
@@ -48,6 +48,10 @@ void lambda(const VectorXd& a,
             int n_candidates)
 {
     const int n = a.rows();
+    check(n > 0, "no ambiguities to resolve");
+    check(Q.rows() == n && Q.cols() == n, "covariance does not match the float solution");
+    check(a_fixed.rows() == n, "fixed solution does not match the float solution");
+    check(n_candidates >= 2, "the ratio test needs at least two candidates");
 
     // Pull integer offsets off the estimates (makes problem better conditioned)
     VectorXd incr(n);
-- 
2.43.0

