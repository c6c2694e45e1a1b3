From 808880f6840720ac2a870e4064c0939a116e66e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 01/36] fix: MAPPED-ADDRESS is built with the address family

---
 src/stun/stun_attribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index 3788ec5..f86b028 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -121,7 +121,7 @@ util::ByteVec MappedAddressAttribute::build() const {
                     return std::make_pair(attr_registry::FAMILY_IPV6, a.view());
                 }
             }, addr.value());
-    const uint32_t first_word = util::host_to_network_u32(port.value() | (family >> 16));
+    const uint32_t first_word = util::host_to_network_u32(port.value() | (family << 16));
     return util::ConstBinaryView::concat({
             util::ConstBinaryView(&first_word, sizeof(first_word)),
             view
-- 
2.43.0


From c884878152d02bfc7e78107eab85426e955ff32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 02/36] fix: HMAC keys longer than a block do not read a
 destroyed hash

---
 src/crypto/crypto_hmac.hpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/crypto/crypto_hmac.hpp b/src/crypto/crypto_hmac.hpp
index afcb894..3f7cac1 100644
--- a/src/crypto/crypto_hmac.hpp
+++ b/src/crypto/crypto_hmac.hpp
@@ -67,21 +67,16 @@ template<uint8_t xorv>
 template<typename HashFunc>
 inline Result<PadKey<xorv>> PadKey<xorv>::from_key(const util::ConstBinaryView& view, HashFunc h)
 {
-    using ViewRV = Result<util::ConstBinaryView>;
-    return ViewRV(view)
-        .bind([&](auto&& v) -> ViewRV {
-            if (v.size() > B) {
-                // TODO: is result of v.view is valid after exit from this function?
-                return h({v}).fmap([](auto&& v) { return v.view(); });
-            } else {
-                return v;
-            }
-        })
-        .fmap([](auto&& v) {
-            Data data = {0};
-            std::copy(v.begin(), v.end(), data.begin());
-            return PadKey<xorv>(std::move(data));
-        });
+    const auto from_view = [](const util::ConstBinaryView& v) {
+        Data data = {0};
+        std::copy(v.begin(), v.end(), data.begin());
+        return PadKey<xorv>(std::move(data));
+    };
+    if (view.size() > B) {
+        // Hash value must be alive while it is copied to the key
+        return h({view}).fmap([&](auto&& hash) { return from_view(hash.view()); });
+    }
+    return from_view(view);
 }
 
 template<uint8_t xorv>
-- 
2.43.0


From d9165bfe2dada32c87b6608dc0c9160077ee49ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 03/36] fix: max_rto limits retransmission interval from above

---
 src/stun/stun_client_udp.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 47d70d2..ecc0ab9 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -26,6 +26,7 @@ public:
     Process5xxResult process_5xx(Timepoint, int code);
     Duration last_timeout() const;
 private:
+    Duration limit_timeout(Duration) const noexcept;
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
     const Duration m_initial_rto;
     const Settings::RetransmitDefault m_settings;
@@ -409,7 +410,7 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
     : m_initial_rto(initial_rto)
     , m_settings(settings)
     , m_maybe_next(now.advance(initial_rto))
-    , m_last_timeout(initial_rto)
+    , m_last_timeout(limit_timeout(initial_rto))
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
@@ -462,12 +463,16 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
         ? m_initial_rto * m_settings.retransmission_multiplier
         : m_last_timeout * 2;
 
-    auto timeout = m_settings.max_rto
+    auto timeout = limit_timeout(current);
+    return std::make_pair(now.advance(timeout), timeout);
+}
+
+ClientUDP::Duration ClientUDP::RetransmitAlgo::limit_timeout(Duration timeout) const noexcept {
+    return m_settings.max_rto
         .fmap([&](auto&& settings_max_rto) {
-            return std::max(current, settings_max_rto);
+            return std::min(timeout, settings_max_rto);
         })
-        .value_or(current);
-    return std::make_pair(now.advance(timeout), timeout);
+        .value_or(timeout);
 }
 
 }
-- 
2.43.0


From 65dadedd894b629d23fc3464b6609f321a2e419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 04/36] fix: STUN client reports one final effect per
 transaction and sends nothing after it

---
 src/stun/stun_client_udp.cpp | 46 ++++++++++++++++++++----------------
 src/stun/stun_client_udp.hpp |  3 +++
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index ecc0ab9..07c0b84 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -83,17 +83,16 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
     while (!m_tid_timeline.empty() && !m_tid_timeline.top().first.is_after(now)) {
         Handle hnd = m_tid_timeline.top().second;
         m_tid_timeline.pop();
-        if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
+        if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.completed) {
             auto& t = it->second;
-            auto se = t.rtx_algo->next(now)
-                .fmap([&](auto&& next) -> Effect {
-                    m_stat.retransmits.inc();
-                    t.rtx_count++;
-                    m_tid_timeline.emplace(std::make_pair(next, hnd));
-                    return SendData{hnd, util::ConstBinaryView(t.msg_data)};
-                })
-                .value_or(TransactionFailed{hnd, TransactionFailed::Timeout{}});
-            m_effects.emplace(std::move(se));
+            if (auto maybe_next = t.rtx_algo->next(now); maybe_next.is_some()) {
+                m_stat.retransmits.inc();
+                t.rtx_count++;
+                m_tid_timeline.emplace(std::make_pair(maybe_next.unwrap(), hnd));
+                m_effects.emplace(SendData{hnd, util::ConstBinaryView(t.msg_data)});
+            } else {
+                complete(t, TransactionFailed{hnd, TransactionFailed::Timeout{}});
+            }
         } // When not found transaction were cleaned before.
     }
     if (!m_effects.empty()) {
@@ -121,7 +120,7 @@ Result<ClientUDP::TransactionRef> ClientUDP::find_transaction(const TransactionI
     }
     auto hnd = i->second;
     auto j = m_tmap.find(hnd);
-    if (j == m_tmap.end()) {
+    if (j == m_tmap.end() || j->second.completed) {
         m_stat.transaction_not_found.inc();
         return make_error_code(ClientError::transaction_not_found);
     }
@@ -217,7 +216,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        complete(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -256,7 +255,7 @@ MaybeError ClientUDP::handle_success_response(Timepoint now, Transaction& t, Mes
                     return TransactionFailed{t.hnd, std::move(reason)};
                 });
         });
-    m_effects.emplace(effect);
+    complete(t, std::move(effect));
 
     return success();
 }
@@ -271,7 +270,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (!ucr.empty()) {
         m_stat.unknown_attribute.inc();
         auto reason = TransactionFailed::UnknownComprehensionRequiredAttribute{std::move(ucr)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        complete(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -279,7 +278,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
     if (maybe_msg_error_code.is_none()) {
         m_stat.no_error_code.inc();
         auto reason = TransactionFailed::Error{make_error_code(ClientError::no_error_code_in_response)};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        complete(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     const auto& msg_error_code = maybe_msg_error_code.unwrap().get();
@@ -290,13 +289,13 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         if (maybe_alt_srv.is_none()) {
             m_stat.no_alternate_server_attr.inc();
             auto reason = TransactionFailed::Error{make_error_code(ClientError::no_alternate_server_in_response)};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            complete(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         const auto& alt_srv = maybe_alt_srv.unwrap().get();
         m_stat.try_alternate_responses.inc();
         auto reason = TransactionFailed::AlternateServer{{alt_srv.addr, alt_srv.port}};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        complete(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
 
@@ -310,7 +309,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         // Alternate server is checked above.
         m_stat.response_3xx.inc();
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        complete(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 4: {
@@ -323,12 +322,12 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             const auto& maybe_ua = msg.attribute_set.unknown_attributes();
             if (maybe_ua.is_some()) {
                 auto reason = TransactionFailed::UnknownAttributeReported{maybe_ua.unwrap().get().types};
-                m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+                complete(t, TransactionFailed{t.hnd, std::move(reason)});
                 return success();
             }
         }
         auto reason = TransactionFailed::ErrorCode{msg_error_code};
-        m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+        complete(t, TransactionFailed{t.hnd, std::move(reason)});
         return success();
     }
     case 5: {
@@ -341,7 +340,7 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
-            m_effects.emplace(TransactionFailed{t.hnd, std::move(reason)});
+            complete(t, TransactionFailed{t.hnd, std::move(reason)});
             return success();
         }
         }
@@ -372,6 +371,11 @@ ClientUDP::RetransmitAlgoPtr ClientUDP::allocate_rtx_algo(const net::Path& path,
             m_settings.retransmit);
 }
 
+void ClientUDP::complete(Transaction& t, Effect&& effect) {
+    t.completed = true;
+    m_effects.emplace(std::move(effect));
+}
+
 void ClientUDP::cleanup(const Handle& hnd) {
     if (auto it = m_tmap.find(hnd); it != m_tmap.end()) {
         const auto& tid = it->second.tid;
diff --git a/src/stun/stun_client_udp.hpp b/src/stun/stun_client_udp.hpp
index ef7ee7e..0096cc5 100644
--- a/src/stun/stun_client_udp.hpp
+++ b/src/stun/stun_client_udp.hpp
@@ -120,6 +120,8 @@ private:
         Timepoint create_time;
         MaybeAuth maybe_auth;
         unsigned rtx_count = 0;
+        // Final effect of the transaction is already in the queue
+        bool completed = false;
     };
     using TransactionRef = std::reference_wrapper<Transaction>;
     using TimelineItem = std::pair<Timepoint, Handle>;
@@ -136,6 +138,7 @@ private:
     MaybeError handle_error_response(Timepoint now, Transaction& trans, Message&& msg);
     Handle allocate_handle() noexcept;
     RetransmitAlgoPtr allocate_rtx_algo(const net::Path& path, Timepoint now);
+    void complete(Transaction&, Effect&&);
     void cleanup(const Handle&);
 
     const Settings m_settings;
-- 
2.43.0


From 0113894377c32984b4b731616fd47f78cfdf8a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 05/36] fix: request is resent server_error_timeout after 5xx
 response

---
 src/stun/stun_client_udp.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 07c0b84..4082f84 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -25,6 +25,7 @@ public:
     };
     Process5xxResult process_5xx(Timepoint, int code);
     Duration last_timeout() const;
+    MaybeTimepoint maybe_next() const;
 private:
     Duration limit_timeout(Duration) const noexcept;
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
@@ -85,6 +86,13 @@ ClientUDP::Effect ClientUDP::next(Timepoint now) {
         m_tid_timeline.pop();
         if (auto it = m_tmap.find(hnd); it != m_tmap.end() && !it->second.completed) {
             auto& t = it->second;
+            const bool is_outdated = t.rtx_algo->maybe_next()
+                .fmap([&](auto&& next) { return next.is_after(now); })
+                .value_or(false);
+            if (is_outdated) {
+                // Retransmission was rescheduled (see 5xx processing).
+                continue;
+            }
             if (auto maybe_next = t.rtx_algo->next(now); maybe_next.is_some()) {
                 m_stat.retransmits.inc();
                 t.rtx_count++;
@@ -337,6 +345,10 @@ MaybeError ClientUDP::handle_error_response(Timepoint now, Transaction& t, Messa
         m_stat.response_5xx.inc();
         switch (t.rtx_algo->process_5xx(now, msg_error_code.code)) {
         case RetransmitAlgo::Process5xxResult::RetransmitScheduled:
+            t.rtx_algo->maybe_next()
+                .with_inner([&](Timepoint&& timepoint) {
+                    m_tid_timeline.emplace(timepoint, t.hnd);
+                });
             return success();
         case RetransmitAlgo::Process5xxResult::TransactionFailed: {
             auto reason = TransactionFailed::ErrorCode{msg_error_code};
@@ -459,6 +471,10 @@ ClientUDP::Duration ClientUDP::RetransmitAlgo::last_timeout() const {
     return m_last_timeout;
 }
 
+ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::maybe_next() const {
+    return m_maybe_next;
+}
+
 std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::RetransmitAlgo::calc_next(Timepoint now) const noexcept {
     if (m_rtx_count + 1 >= m_settings.request_count + m_5xx_count) {
         return std::make_pair(none(), Duration(0));
-- 
2.43.0


From 7d6773261ccfdc6c69616296d94e5f97ec99fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 06/36] fix: retransmission timeout never collapses to zero or
 bare RTT

---
 src/stun/details/stun_client_udp_rto.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stun/details/stun_client_udp_rto.cpp b/src/stun/details/stun_client_udp_rto.cpp
index fd7362f..f54843f 100644
--- a/src/stun/details/stun_client_udp_rto.cpp
+++ b/src/stun/details/stun_client_udp_rto.cpp
@@ -5,6 +5,7 @@
 //
 // Retransmit timeout (RTO) calculation for STUN UDP Client
 
+#include <algorithm>
 #include <cmath>
 #include "stun/details/stun_client_udp_rto.hpp"
 
@@ -25,12 +26,15 @@ Duration ClientUDPRtoCalculator::rto(const net::Path& path) const {
     }
     const auto& data = it->second;
     static constexpr unsigned K = 4;
+    // RFC6298:
+    // RTO <- SRTT + max (G, K*RTTVAR), where G is the clock granularity.
+    static constexpr Duration G{1};
     // Karn's algorithm:
     // Use previous backoff for further RTO until
     // we get reliable RTT value.
     return data.backoff
         .value_or(
-            data.smooth.fmap([](auto&& s) { return s.srtt + K * s.rttvar; })
+            data.smooth.fmap([](auto&& s) { return s.srtt + std::max<Duration>(G, K * s.rttvar); })
                 .value_or(m_settings.initial_rto));
 }
 
-- 
2.43.0


From f2891a8605758e4a3624cd0da7922e451541ade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 07/36] fix: reserved bits of ERROR-CODE are ignored

---
 src/stun/stun_attribute.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index f86b028..abd2952 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -330,7 +330,8 @@ Result<ErrorCodeAttribute> ErrorCodeAttribute::parse(const util::ConstBinaryView
         })
         .fmap([&](uint32_t first_word) {
             return ErrorCodeAttribute{
-                .code = (first_word >> 8) * 100 + (first_word & 0xFF),
+                // Reserved bits of the first word are ignored
+                .code = ((first_word >> 8) & 0x7) * 100 + (first_word & 0xFF),
                 .reason_phrase = maybe_reason.fmap(
                     [](auto&& view) {
                         return std::string(view.begin(), view.end());
-- 
2.43.0


From b7e1351616f6819b9b109715f4c9d4f0a08f8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 08/36] fix: second MESSAGE-INTEGRITY attribute is ignored

---
 src/stun/stun_message.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 237d54f..bc22f8d 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -285,8 +285,12 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
             // The text used as input to HMAC is the STUN message,
             // including the header, up to and including the attribute
             // preceding the MESSAGE-INTEGRITY attribute.
-            raw_attrs.emplace_back(raw_attr);
-            maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            // Another MESSAGE-INTEGRITY that follows the first one is
+            // ignored as any other attribute (see below).
+            if (!maybe_integrity_interval.is_some()) {
+                raw_attrs.emplace_back(raw_attr);
+                maybe_integrity_interval = util::ConstBinaryView::Interval{0, attr_offset};
+            }
             break;
         default:
             if (!maybe_integrity_interval.is_some()) {
-- 
2.43.0


From 89be56b1d413ed96f923a05027debd5b9b019711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 09/36] fix: packets with non-zero two first bits are not STUN
 messages

---
 src/stun/stun_error.cpp      | 1 +
 src/stun/stun_error.hpp      | 3 ++-
 src/stun/stun_message.cpp    | 9 +++++++++
 src/stun/stun_parse_stat.hpp | 1 +
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_error.cpp b/src/stun/stun_error.cpp
index 0f0e9c6..1f2ea7b 100644
--- a/src/stun/stun_error.cpp
+++ b/src/stun/stun_error.cpp
@@ -38,6 +38,7 @@ public:
         case ParseError::error_code_attribute_size: return "invalid error code attribute size";
         case ParseError::unknown_attributes_attribute_size: return "invalid unknown attributes attribute size";
         case ParseError::unknown_addr_family:       return "unknown addr family";
+        case ParseError::invalid_message_type:      return "invalid message type";
         }
         return "unknown stun error";
     }
diff --git a/src/stun/stun_error.hpp b/src/stun/stun_error.hpp
index 2521942..725440d 100644
--- a/src/stun/stun_error.hpp
+++ b/src/stun/stun_error.hpp
@@ -33,7 +33,8 @@ enum class ParseError {
     use_candidate_size,
     error_code_attribute_size,
     unknown_attributes_attribute_size,
-    unknown_addr_family
+    unknown_addr_family,
+    invalid_message_type
 };
 
 enum class ClientError {
diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index bc22f8d..3dc8504 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -62,6 +62,15 @@ Result<Message> Message::parse(const util::ConstBinaryView& vv, ParseStat& stat)
     const uint16_t msg_length = vv.assured_read_u16be(2);
     const uint32_t magic_cookie = vv.assured_read_u32be(4);
 
+    // The most significant 2 bits of every STUN message MUST be zeroes.
+    // This can be used to differentiate STUN packets from other protocols
+    // when STUN is multiplexed with other protocols on the same port.
+    if ((msg_type & 0xC000) != 0) {
+        stat.error.inc();
+        stat.invalid_message_type.inc();
+        return make_error_code(ParseError::invalid_message_type);
+    }
+
     // The message length MUST contain the size, in bytes, of the message
     // not including the 20-byte STUN header.  Since all STUN attributes are
     // padded to a multiple of 4 bytes, the last 2 bits of this field are
diff --git a/src/stun/stun_parse_stat.hpp b/src/stun/stun_parse_stat.hpp
index 7105cef..38b520d 100644
--- a/src/stun/stun_parse_stat.hpp
+++ b/src/stun/stun_parse_stat.hpp
@@ -16,6 +16,7 @@ struct ParseStat {
     stat::Counter success;
     stat::Counter error;
     stat::Counter invalid_size;
+    stat::Counter invalid_message_type;
     stat::Counter not_padded;
     stat::Counter message_length_error;
     stat::Counter magic_cookie_error;
-- 
2.43.0


From d09a9f5d31097c3cba4a30cc8d2330d70bc80839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 10/36] fix: IP address string with embedded zero is not an
 address

---
 src/net/ip/ip_address.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net/ip/ip_address.cpp b/src/net/ip/ip_address.cpp
index b6c0ccb..e6aab25 100644
--- a/src/net/ip/ip_address.cpp
+++ b/src/net/ip/ip_address.cpp
@@ -20,6 +20,10 @@ Result<AddressType> inet_pton_adapter(const std::string_view& v) {
     // succeeds, with the address pointed to by dst in network byte
     // order.
     std::string copy(v.begin(), v.end());
+    if (copy.find('\0') != std::string::npos) {
+        // inet_pton() would parse only part of the string
+        return make_error_code(Error::ip_address_parse_error);
+    }
     int rc = inet_pton(INET_FAMILY, copy.c_str(), &ip_addr);
     if (rc > 0) {
         return AddressType::from_view(util::ConstBinaryView(&ip_addr, sizeof(ip_addr)));
-- 
2.43.0


From 9df318b886d4ecc59729cd96a4b56c1ca658d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 11/36] fix: remainder of negative duration in
 Timepoint::advance_from

---
 src/clock/clock_timepoint.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clock/clock_timepoint.hpp b/src/clock/clock_timepoint.hpp
index 25fd481..6a1a0ff 100644
--- a/src/clock/clock_timepoint.hpp
+++ b/src/clock/clock_timepoint.hpp
@@ -76,9 +76,10 @@ inline Timepoint Timepoint::epoch() noexcept {
 
 template<typename ChronoDuration>
 inline Timepoint Timepoint::advance_from(ChronoDuration& duration) const noexcept {
-    auto advance = std::chrono::duration_cast<UnderlyingDuration>(duration);
+    // Duration may be negative so it must be divided as a signed value
+    auto advance = std::chrono::duration_cast<Duration>(duration);
     duration -= std::chrono::duration_cast<ChronoDuration>(advance);
-    return Timepoint{m_value + advance};
+    return Timepoint{m_value + UnderlyingDuration(advance)};
 }
 
 template<typename ChronoDuration>
-- 
2.43.0


From 488b61ac04b84c9b20f89d4ebf9c0b1dd57ff1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 12/36] fix: murmur hash does not read unaligned words

---
 src/util/util_hash_murmur.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/util/util_hash_murmur.cpp b/src/util/util_hash_murmur.cpp
index 1b3e314..cec47c6 100644
--- a/src/util/util_hash_murmur.cpp
+++ b/src/util/util_hash_murmur.cpp
@@ -6,6 +6,7 @@
 // Murmur hash implementation
 //
 
+#include <cstring>
 #include "util/util_hash_murmur.hpp"
 
 namespace freewebrtc::util::hash {
@@ -14,11 +15,14 @@ uint64_t murmur64(const ConstBinaryView& view, uint64_t seed) noexcept {
   const uint64_t m = 0xc6a4a7935bd1e995ULL;
   const int r = 47;
   uint64_t h = seed ^ (view.size() * m);
-  const uint64_t *data = (const uint64_t *)view.data();
-  const uint64_t *end = data + view.size() / sizeof(*data);
+  const unsigned char *data = view.data();
+  const unsigned char *end = data + view.size() / sizeof(uint64_t) * sizeof(uint64_t);
 
   while (data != end) {
-      uint64_t v = *data++;
+      // view is not necessary aligned
+      uint64_t v;
+      std::memcpy(&v, data, sizeof(v));
+      data += sizeof(v);
       v *= m;
       v ^= v >> r;
       v *= m;
-- 
2.43.0


From d6e5d6fe4578de2594e62c8f707a86d14a1534cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 13/36] fix: XOR of address does not access bytes as misaligned
 integer

---
 src/stun/stun_address.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/stun/stun_address.cpp b/src/stun/stun_address.cpp
index 4569fd3..acf597d 100644
--- a/src/stun/stun_address.cpp
+++ b/src/stun/stun_address.cpp
@@ -6,6 +6,7 @@
 // STUN Address
 //
 
+#include <cstring>
 #include "stun/stun_address.hpp"
 #include "stun/stun_error.hpp"
 #include "stun/stun_transaction_id.hpp"
@@ -20,6 +21,16 @@ namespace {
 
 const uint32_t net_magic = util::host_to_network_u32(details::MAGIC_COOKIE);
 
+// XOR first 4 bytes of the address with magic cookie
+// (address bytes are not necessary aligned as uint32_t)
+template<typename Holder>
+void xor_magic(Holder& holder) noexcept {
+    uint32_t vvu32;
+    std::memcpy(&vvu32, holder.data(), sizeof(vvu32));
+    vvu32 ^= net_magic;
+    std::memcpy(holder.data(), &vvu32, sizeof(vvu32));
+}
+
 }
 
 Result<Family> Family::from_uint8(uint8_t v) {
@@ -72,16 +83,14 @@ XoredAddress XoredAddress::from_address(const net::ip::Address& addr, const Tran
                     const auto vv = v4.view();
                     V4Holder holder;
                     std::copy(vv.begin(), vv.end(), holder.begin());
-                    auto& vvu32 = reinterpret_cast<uint32_t&>(*holder.begin());
-                    vvu32 ^= net_magic;
+                    xor_magic(holder);
                     return XoredAddress(std::move(holder));
                 },
                 [&](const net::ip::AddressV6& v6) {
                     const auto vv = v6.view();
                     V6Holder holder;
                     std::copy(vv.begin(), vv.end(), holder.begin());
-                    auto& vvu32 = reinterpret_cast<uint32_t&>(*holder.begin());
-                    vvu32 ^= net_magic;
+                    xor_magic(holder);
                     auto tidv = tid.view();
                     for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {
                         holder[i + 4] ^= tidv.assured_read_u8(i);
@@ -102,8 +111,7 @@ net::ip::Address XoredAddress::to_address(const TransactionId& tid) const noexce
         util::overloaded {
             [](const V4Holder& v) {
                 V4Holder vv = v;
-                auto& vvu32 = reinterpret_cast<uint32_t&>(*vv.begin());
-                vvu32 ^= net_magic;
+                xor_magic(vv);
                 return net::ip::Address(net::ip::AddressV4(std::move(vv)));
             },
             [&](const V6Holder& v) {
@@ -112,8 +120,7 @@ net::ip::Address XoredAddress::to_address(const TransactionId& tid) const noexce
                 // concatenation of the magic cookie and the 96-bit
                 // transaction ID.
                 V6Holder vv = v;
-                auto& vvu32 = reinterpret_cast<uint32_t&>(*vv.begin());
-                vvu32 ^= net_magic;
+                xor_magic(vv);
                 auto tidv = tid.view();
                 for (size_t i = 0; i < tidv.size() && i < vv.size() - 4; ++i) {
                     vv[i + 4] ^= tidv.assured_read_u8(i);
-- 
2.43.0


From a9830e9a8b713f67bbfd28ae94112812be574675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 14/36] fix: move assignment of intrusive list link keeps the
 list consistent

---
 src/util/util_intrusive_list.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/util/util_intrusive_list.hpp b/src/util/util_intrusive_list.hpp
index da6b27c..07908b2 100644
--- a/src/util/util_intrusive_list.hpp
+++ b/src/util/util_intrusive_list.hpp
@@ -76,7 +76,9 @@ public:
     ~Link();
     // No any types of copy
     Link& operator=(const Link&) = delete;
-    Link& operator=(Link&&) = default;
+    // Take place of another link in the list. Object that link
+    // belongs to is not changed.
+    Link& operator=(Link&&);
 
     T& get() noexcept;
     const T& get() const noexcept;
@@ -122,6 +124,19 @@ IntrusiveList<T>::Link::Link(T& t, Link&& other)
     other.m_prev = none();
 }
 
+template<typename T>
+typename IntrusiveList<T>::Link& IntrusiveList<T>::Link::operator=(Link&& other) {
+    if (&other == this) { // self assignment
+        return *this;
+    }
+    remove();
+    if (other.in_list()) {
+        place_after(other);
+        other.remove();
+    }
+    return *this;
+}
+
 template<typename T>
 IntrusiveList<T>::Link::~Link() {
     remove();
-- 
2.43.0


From 97f349dadd2e19d8d6a0509e3e78a738c03bfd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 15/36] fix: too large STUN message is an error instead of
 corrupted packet

---
 src/stun/stun_attribute_set.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stun/stun_attribute_set.cpp b/src/stun/stun_attribute_set.cpp
index 1c97b6c..2243a78 100644
--- a/src/stun/stun_attribute_set.cpp
+++ b/src/stun/stun_attribute_set.cpp
@@ -138,8 +138,15 @@ Result<util::ByteVec> AttributeSet::build(const Header& header, const MaybeInteg
     auto attr_headers_it = attr_headers.begin();
     const uint32_t padding = 0;
     uint32_t total_size = 0;
+    // Both message and attribute lengths are 16 bits fields
+    constexpr size_t max_size = 0xFFFF;
+    bool is_oversized = false;
 
     auto add_attr = [&](auto type, const auto& view) {
+        if (view.size() > max_size || total_size > max_size) {
+            is_oversized = true;
+            return;
+        }
         *attr_headers_it = util::host_to_network_u32((type << 16) | view.size());
         result.emplace_back(util::ConstBinaryView(&*attr_headers_it, sizeof(uint32_t)));
         total_size += sizeof(uint32_t);
@@ -286,6 +293,9 @@ Result<util::ByteVec> AttributeSet::build(const Header& header, const MaybeInteg
             } else {
                 no_fingerprint();
             }
+            if (is_oversized || total_size > max_size) {
+                return std::make_error_code(std::errc::message_size);
+            }
             return util::ConstBinaryView::concat(result);
         });
 }
-- 
2.43.0


From 9f91fb914783ef0eb98d3564db3ce93d0f8b2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 16/36] fix: short MAPPED-ADDRESS is counted as parse error

---
 src/stun/stun_attribute.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stun/stun_attribute.cpp b/src/stun/stun_attribute.cpp
index abd2952..aeeaf7f 100644
--- a/src/stun/stun_attribute.cpp
+++ b/src/stun/stun_attribute.cpp
@@ -77,6 +77,11 @@ Result<MappedAddressAttribute> MappedAddressAttribute::parse(const util::ConstBi
     // |                             Address                           |
     // +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
     //
+    if (vv.size() < sizeof(uint32_t)) {
+        stat.error.inc();
+        stat.invalid_mapped_address.inc();
+        return make_error_code(ParseError::invalid_mapped_addr);
+    }
     auto family_rv = vv.read_u8(1).require();
     auto port_rv = vv.read_u16be(2)
         .require()
-- 
2.43.0


From 41aa96adb11c652e4101178deac2a052fe6ec83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 17/36] fix: non-ASCII characters are not passed to tolower as
 negative values

---
 src/abnf/abnf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abnf/abnf.hpp b/src/abnf/abnf.hpp
index 72fb84e..62372dc 100644
--- a/src/abnf/abnf.hpp
+++ b/src/abnf/abnf.hpp
@@ -41,7 +41,7 @@ inline bool eq_string(std::string_view v1, std::string_view v2) {
         return false;
     }
     for (std::string_view::size_type i = 0; i < v1.size(); ++i) {
-        if (std::tolower(v1[i]) != std::tolower(v2[i])) {
+        if (std::tolower((unsigned char)v1[i]) != std::tolower((unsigned char)v2[i])) {
             return false;
         }
     }
-- 
2.43.0


From 07d9f63a91c495e36c1e2521be51f82e4e3fe92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 18/36] fix: copy of token stream does not refer to tokens of
 the original

---
 src/util/util_token_stream.cpp | 6 ++----
 src/util/util_token_stream.hpp | 7 ++++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util/util_token_stream.cpp b/src/util/util_token_stream.cpp
index b1c0d2a..fa402f7 100644
--- a/src/util/util_token_stream.cpp
+++ b/src/util/util_token_stream.cpp
@@ -40,19 +40,17 @@ std::string TokenStreamErrorCategory::message(int code) const {
 
 TokenStream::TokenStream(const Container& d)
     : m_data(d)
-    , m_pos(m_data.cbegin())
 {}
 
 TokenStream::TokenStream(Container&& d)
     : m_data(std::move(d))
-    , m_pos(m_data.cbegin())
 {}
 
 TokenStream::MaybToken TokenStream::optional() noexcept {
-    if (m_pos == m_data.cend()) {
+    if (m_pos == m_data.size()) {
         return None{};
     }
-    return *(m_pos++);
+    return m_data[m_pos++];
 }
 
 ::freewebrtc::Error TokenStream::make_error_code(Error code) {
diff --git a/src/util/util_token_stream.hpp b/src/util/util_token_stream.hpp
index 6a1016e..4d37f2e 100644
--- a/src/util/util_token_stream.hpp
+++ b/src/util/util_token_stream.hpp
@@ -45,7 +45,8 @@ private:
     ::freewebrtc::Error make_error_code(Error);
 
     const Container m_data;
-    Container::const_iterator m_pos;
+    // Index (not iterator) so that copy of the stream refers to its own tokens
+    Container::size_type m_pos = 0;
 };
 
 
@@ -68,10 +69,10 @@ inline MaybeError TokenStream::required(const std::string_view& expected) noexce
 }
 
 inline Result<TokenStream::TokenType> TokenStream::required() noexcept {
-    if (m_pos == m_data.end()) {
+    if (m_pos == m_data.size()) {
         return make_error_code(Error::no_required_token);
     }
-    return Result<TokenType>{*(m_pos++)};
+    return Result<TokenType>{m_data[m_pos++]};
 }
 
 
-- 
2.43.0


From dd833bc6462f8442623c99deff2ca172e8e3e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 19/36] fix: outdated RTT history is dropped also when a new
 path is backed off

---
 src/stun/details/stun_client_udp_rto.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stun/details/stun_client_udp_rto.cpp b/src/stun/details/stun_client_udp_rto.cpp
index f54843f..a50406b 100644
--- a/src/stun/details/stun_client_udp_rto.cpp
+++ b/src/stun/details/stun_client_udp_rto.cpp
@@ -80,6 +80,7 @@ void ClientUDPRtoCalculator::backoff(Timepoint now, const net::Path& path, Durat
     if (it == m_by_path.end()) {
         auto [it, _] = m_by_path.emplace(path, Data{path, now, backoff});
         m_timeline.push_back(it->second);
+        clear_outdated(now);
         return;
     }
     auto& data = it->second;
-- 
2.43.0


From dff513a114ce3e4a1c0be461d8cf5115649f1634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 20/36] fix: single request waits for response as the last one

---
 src/stun/stun_client_udp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 4082f84..566cce0 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -426,7 +426,9 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
     : m_initial_rto(initial_rto)
     , m_settings(settings)
     , m_maybe_next(now.advance(initial_rto))
-    , m_last_timeout(limit_timeout(initial_rto))
+    // The only request is also the last one
+    , m_last_timeout(limit_timeout(
+        settings.request_count > 1 ? initial_rto : initial_rto * settings.retransmission_multiplier))
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
-- 
2.43.0


From 2778732691176c9894ad57e881843219ec2fd162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:02 +0000
Subject: [PATCH 21/36] fix: transaction handles can be ordered

---
 src/stun/stun_client_udp_handle.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stun/stun_client_udp_handle.hpp b/src/stun/stun_client_udp_handle.hpp
index 2b29bdf..4b6b148 100644
--- a/src/stun/stun_client_udp_handle.hpp
+++ b/src/stun/stun_client_udp_handle.hpp
@@ -9,13 +9,14 @@
 #pragma once
 
 #include <stddef.h>
+#include <compare>
 #include <functional>
 
 namespace freewebrtc::stun::client_udp {
 
 struct Handle {
     unsigned value;
-    bool operator<=>(const Handle&) const noexcept = default;
+    auto operator<=>(const Handle&) const noexcept = default;
 };
 
 struct HandleHash {
-- 
2.43.0


From d6e2827e509e5bb7b0cefcf335304ecfe1d3c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 22/36] fix: STUN server answered requests of unsupported
 methods with errors

Requests with other methods than Binding were ignored only after the
checks of attributes and credentials, so that 420, 400 and 401 were sent
for them. RFC 5389 (7.3) requires to discard them silently.
---
 src/stun/stun_server_stateless.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stun/stun_server_stateless.cpp b/src/stun/stun_server_stateless.cpp
index 00a830b..4cc4291 100644
--- a/src/stun/stun_server_stateless.cpp
+++ b/src/stun/stun_server_stateless.cpp
@@ -62,6 +62,12 @@ void Stateless::add_user(const precis::OpaqueString& name, const stun::Password&
 }
 
 Stateless::ProcessResult Stateless::process_request(const net::Endpoint& ep, Message&& msg, const util::ConstBinaryView& view) {
+    // RFC 5389: 7.3. Receiving a STUN Message
+    // ...and that the method value is a supported method. [...] If any
+    // errors are detected, the message is silently discarded.
+    if (msg.header.method != Method::binding()) {
+        return Ignore{.message = std::move(msg)};
+    }
     // RFC 5389: 7.3.1. Processing a Request
     // If the request contains one or more unknown comprehension-required
     // attributes, the server replies with an error response with an error
@@ -128,9 +134,6 @@ Stateless::ProcessResult Stateless::process_request(const net::Endpoint& ep, Mes
     return maybe_username
         .bind(check_auth)
         .value_or_call([&]() -> Stateless::ProcessResult {
-            if (msg.header.method != Method::binding()) {
-                return Ignore{.message = std::move(msg)};
-            }
             Header header {
                 Class::success_response(),
                 msg.header.method,
-- 
2.43.0


From d952005e31d6a261448332a644795fcfc2d6990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 23/36] fix: parsing a STUN message took time quadratic in the
 number of attributes

---
 src/stun/stun_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stun/stun_message.cpp b/src/stun/stun_message.cpp
index 3dc8504..753f618 100644
--- a/src/stun/stun_message.cpp
+++ b/src/stun/stun_message.cpp
@@ -324,7 +324,7 @@ Result<ParseAttrsResult> parse_attrs(util::ConstBinaryView vv, size_t attr_offse
         return Attribute::parse(attr_view, attr_type, stat)
             .fmap([&](Attribute::ParseResult&& attr) {
                 result.emplace_back(std::move(attr));
-                return result;
+                return std::move(result);
             });
     }).fmap([&](Result&& attrs) {
         return ParseAttrsResult {
-- 
2.43.0


From e98cc4c0f2102c76c50e497e7a440c3a05482bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 24/36] fix: component id above 256 was accepted from text

---
 src/ice/candidate/ice_candidate_component_id.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ice/candidate/ice_candidate_component_id.cpp b/src/ice/candidate/ice_candidate_component_id.cpp
index a7f5c94..915c27f 100644
--- a/src/ice/candidate/ice_candidate_component_id.cpp
+++ b/src/ice/candidate/ice_candidate_component_id.cpp
@@ -35,6 +35,9 @@ Result<ComponentId> ComponentId::from_string(const std::string_view& v) noexcept
     }
     std::string vstr{v};
     auto value = std::atoi(vstr.c_str());
+    if (value > 256) {
+        return make_error_code(Error::invalid_component_id_value);
+    }
     return ComponentId(value);
 }
 
-- 
2.43.0


From 11cce4364f2fec896af4b6d4e269adc20dc46e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 25/36] fix: failed update of a hash was ignored in the Node.js
 bindings

The digest of incomplete data was returned as if it were valid.
---
 node/openssl/node_openssl_hash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/node/openssl/node_openssl_hash.cpp b/node/openssl/node_openssl_hash.cpp
index bfc341c..178310e 100644
--- a/node/openssl/node_openssl_hash.cpp
+++ b/node/openssl/node_openssl_hash.cpp
@@ -55,7 +55,9 @@ typename Hash::Result MessageDigest::calc(const typename Hash::Input& input) {
     }
 
     for (const auto& chunk: input) {
-        update(chunk);
+        if (auto maybe_err = update(chunk); maybe_err.is_err()) {
+            return maybe_err.unwrap_err();
+        }
     }
 
     typename Hash::Value v;
-- 
2.43.0


From 2497873e962582468289dbc9122d50166c7af705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:44 +0000
Subject: [PATCH 26/36] fix: Node.js STUN server took any number for a port

Numbers outside of 0..65535 were reduced modulo 65536 and the response
named the wrong port.
---
 node/node_stun/node_stun_server_stateless.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/node/node_stun/node_stun_server_stateless.cpp b/node/node_stun/node_stun_server_stateless.cpp
index fe495fd..8b1860e 100644
--- a/node/node_stun/node_stun_server_stateless.cpp
+++ b/node/node_stun/node_stun_server_stateless.cpp
@@ -6,11 +6,14 @@
 // Mapping of stateless STUN server to NAPI
 //
 
+#include <limits>
+
 #include "util/util_result_sugar.hpp"
 #include "stun/stun_server_stateless.hpp"
 #include "node/openssl/node_openssl_hash.hpp"
 #include "node_stun_server_stateless.hpp"
 #include "node_stun_message.hpp"
+#include "node_stun_error.hpp"
 #include <craftnapi/error.hpp>
 
 namespace freewebrtc::node_stun {
@@ -38,11 +41,17 @@ Result<net::Endpoint> extract_rinfo(const Value& v) {
     auto port_rv = (v_as_obj
         > [](auto obj) { return obj.named_property("port"); }
         > [](const auto& v) { return v.as_int32(); }
+        > [](int32_t v) -> Result<net::Port> {
+            if (v < 0 || v > std::numeric_limits<uint16_t>::max()) {
+                return make_error_code(Error::invalid_port_number);
+            }
+            return net::Port::from_uint16(v);
+        }
         ).add_context("rinfo.port");
 
     return combine(
         [](auto&& addr, auto&& port) -> Result<net::Endpoint> {
-            return net::Endpoint(net::UdpEndpoint{addr, net::Port(port)});
+            return net::Endpoint(net::UdpEndpoint{addr, port});
         },
         std::move(addr_rv),
         std::move(port_rv));
-- 
2.43.0


From 1138a8881fc7730f559e3685d9e17d50c6da8d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 27/36] fix: error categories of rtp and util were named as the
 one of net

Printed error codes ("net error:3") named an error of another module.
---
 src/rtp/rtp_error.cpp        | 2 +-
 src/util/util_error_code.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rtp/rtp_error.cpp b/src/rtp/rtp_error.cpp
index 567ee37..9ee9a41 100644
--- a/src/rtp/rtp_error.cpp
+++ b/src/rtp/rtp_error.cpp
@@ -13,7 +13,7 @@ namespace freewebrtc::rtp {
 class ErrorCategory : public std::error_category {
 public:
     const char* name() const noexcept override {
-        return "net error";
+        return "rtp error";
     }
     std::string message(int code) const override {
         switch ((Error)code) {
diff --git a/src/util/util_error_code.cpp b/src/util/util_error_code.cpp
index 4af148a..caef659 100644
--- a/src/util/util_error_code.cpp
+++ b/src/util/util_error_code.cpp
@@ -13,7 +13,7 @@ namespace freewebrtc::util {
 class ErrorCategory : public std::error_category {
 public:
     const char* name() const noexcept override {
-        return "net error";
+        return "util error";
     }
     std::string message(int code) const override {
         switch ((ErrorCode)code) {
-- 
2.43.0


From d919a6fdb7e5f3d4a78146ec74a881a42191b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:07 +0000
Subject: [PATCH 28/36] fix: timeouts of STUN client stop growing before they
 overflow

---
 src/stun/stun_client_udp.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/stun/stun_client_udp.cpp b/src/stun/stun_client_udp.cpp
index 566cce0..6a7227f 100644
--- a/src/stun/stun_client_udp.cpp
+++ b/src/stun/stun_client_udp.cpp
@@ -28,6 +28,7 @@ public:
     MaybeTimepoint maybe_next() const;
 private:
     Duration limit_timeout(Duration) const noexcept;
+    static Duration multiply(Duration, unsigned) noexcept;
     std::pair<MaybeTimepoint, Duration> calc_next(Timepoint now) const noexcept;
     const Duration m_initial_rto;
     const Settings::RetransmitDefault m_settings;
@@ -428,7 +429,7 @@ ClientUDP::RetransmitAlgo::RetransmitAlgo(Duration initial_rto, const Settings::
     , m_maybe_next(now.advance(initial_rto))
     // The only request is also the last one
     , m_last_timeout(limit_timeout(
-        settings.request_count > 1 ? initial_rto : initial_rto * settings.retransmission_multiplier))
+        settings.request_count > 1 ? initial_rto : multiply(initial_rto, settings.retransmission_multiplier)))
 {}
 
 ClientUDP::MaybeTimepoint ClientUDP::RetransmitAlgo::init(Timepoint now) {
@@ -482,8 +483,8 @@ std::pair<ClientUDP::MaybeTimepoint, client_udp::Duration> ClientUDP::Retransmit
         return std::make_pair(none(), Duration(0));
     }
     auto current = m_rtx_count + 2 == m_settings.request_count
-        ? m_initial_rto * m_settings.retransmission_multiplier
-        : m_last_timeout * 2;
+        ? multiply(m_initial_rto, m_settings.retransmission_multiplier)
+        : multiply(m_last_timeout, 2);
 
     auto timeout = limit_timeout(current);
     return std::make_pair(now.advance(timeout), timeout);
@@ -497,5 +498,12 @@ ClientUDP::Duration ClientUDP::RetransmitAlgo::limit_timeout(Duration timeout) c
         .value_or(timeout);
 }
 
+ClientUDP::Duration ClientUDP::RetransmitAlgo::multiply(Duration timeout, unsigned factor) noexcept {
+    // Each server error may add one more retransmit, so
+    // the timeout must not grow over what timepoint can represent.
+    constexpr auto limit = Duration::max() / 2;
+    return factor != 0 && timeout > limit / factor ? limit : timeout * factor;
+}
+
 }
 
-- 
2.43.0


From a5e92c5016aff61eb34a175bc4b9692f00e815fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 29/36] fix: case-insensitive comparison does not depend on the
 locale

abnf::eq_string compared with std::tolower, which follows LC_CTYPE of the
program: in a Turkish locale "UDP"-like words with I never matched, and
letters outside of US-ASCII matched each other.
---
 src/abnf/abnf.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/abnf/abnf.hpp b/src/abnf/abnf.hpp
index 62372dc..8a7ceee 100644
--- a/src/abnf/abnf.hpp
+++ b/src/abnf/abnf.hpp
@@ -40,8 +40,12 @@ inline bool eq_string(std::string_view v1, std::string_view v2) {
     if (v1.size() != v2.size()) {
         return false;
     }
+    // Character set is US-ASCII whatever the current locale is
+    const auto lower = [](char c) -> char {
+        return 'A' <= c && c <= 'Z' ? c - 'A' + 'a' : c;
+    };
     for (std::string_view::size_type i = 0; i < v1.size(); ++i) {
-        if (std::tolower((unsigned char)v1[i]) != std::tolower((unsigned char)v2[i])) {
+        if (lower(v1[i]) != lower(v2[i])) {
             return false;
         }
     }
-- 
2.43.0


From 64640d12ad1c1408964a860c2e28fd9956fdfb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 30/36] fix: echo example keeps the value of bandwidth lines

---
 examples/echo/backend/ts/sdp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/echo/backend/ts/sdp.ts b/examples/echo/backend/ts/sdp.ts
index 9786ca6..b585f07 100644
--- a/examples/echo/backend/ts/sdp.ts
+++ b/examples/echo/backend/ts/sdp.ts
@@ -224,7 +224,7 @@ function makeParseBandwidth() {
         }
         try {
             const bws = r.obj.map((str: string) => {
-                const v = /(.*):.*/.exec(str);
+                const v = /^([^:]*):(.*)$/.exec(str);
                 if (!v) {
                     throw new Error(`failed to parse bandwidth: ${str}`);
                 }
-- 
2.43.0


From baf53ce4491f883e0e961a6f73668d07a6d94019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 31/36] fix: echo example writes each time of a session as its
 own line

---
 examples/echo/backend/ts/sdp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/echo/backend/ts/sdp.ts b/examples/echo/backend/ts/sdp.ts
index b585f07..e36d479 100644
--- a/examples/echo/backend/ts/sdp.ts
+++ b/examples/echo/backend/ts/sdp.ts
@@ -130,7 +130,7 @@ export function serializeSDP(sdp: SDP): string {
             sdp.phones.map((p) => `p=${p}`),
             sdp.connection ? `c=${sdp.connection.net} ${sdp.connection.address.type} ${sdp.connection.address.value}` : [],
             sdp.bandwidth.map(({type, value}) => `b=${type}:${value}`),
-            `t=${sdp.time}`,
+            sdp.time.map((t) => `t=${t}`),
             sdp.zone ? `z=${sdp.zone}` : [],
             sdp.key ? `k=${sdp.key}` : [],
             sdp.attrs.map((a) => `a=${a}`),
-- 
2.43.0


From 99e312a35e91da7d3d4706d9c13266f2a153a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 32/36] fix: echo example reads media lines field by field,
 within the line

---
 examples/echo/backend/ts/sdp.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/echo/backend/ts/sdp.ts b/examples/echo/backend/ts/sdp.ts
index e36d479..068ba49 100644
--- a/examples/echo/backend/ts/sdp.ts
+++ b/examples/echo/backend/ts/sdp.ts
@@ -271,7 +271,7 @@ function parseMediaDescriptor(str: string): ParseResult<MediaDescriptor> {
 
 function parseMedia(str: string): ParseResult<Media> {
     //  media-field = %x6d "=" media SP port ["/" integer] SP proto 1*(SP fmt) CRLF
-    const result = /^m=([^ ]*) ([^ ]*)(\/[^ ]*)? ([^ ]*)( .*)+\r\n/.exec(str);
+    const result = /^m=([^ \r\n]*) ([^ \/\r\n]*)(\/[^ \r\n]*)? ([^ \r\n]*)((?: [^ \r\n]+)+)\r\n/.exec(str);
     if (!result) {
         return makeParseError(`cannot parse media: ${str}`);
     }
-- 
2.43.0


From f95599f316845ac3e441bdc12bab10b7558987c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 33/36] fix: echo example reads origin and connection lines in
 linear time

---
 examples/echo/backend/ts/sdp.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/echo/backend/ts/sdp.ts b/examples/echo/backend/ts/sdp.ts
index 068ba49..5f5f084 100644
--- a/examples/echo/backend/ts/sdp.ts
+++ b/examples/echo/backend/ts/sdp.ts
@@ -174,7 +174,7 @@ function parseProto(sdp: string): ParseResult<V> {
 
 function parseOrigin(str: string): ParseResult<Origin> {
     // o=<username> <sess-id> <sess-version> <nettype> <addrtype> <unicast-address>
-    const result = /^o=(.*) (.*) (.*) (.*) (.*) (.*)\r\n/.exec(str);
+    const result = /^o=([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*)\r\n/.exec(str);
     if (!result) {
         return makeParseError(`cannot parse origin: ${str}`);
     }
@@ -196,7 +196,7 @@ function parseOrigin(str: string): ParseResult<Origin> {
 
 function parseConnection(str: string): ParseResult<SessionConnection> {
     // o=<username> <sess-id> <sess-version> <nettype> <addrtype> <unicast-address>
-    const result = /^c=(.*) (.*) (.*)\r\n/.exec(str);
+    const result = /^c=([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*)\r\n/.exec(str);
     if (!result) {
         if (str.startsWith('c=')) {
             return makeParseError(`cannot parse connection: ${str}`);
-- 
2.43.0


From 28f29150a68293e0e6b1735e04a8cb5140b712f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 34/36] fix: echo example keeps characters that arrive in
 pieces

---
 examples/echo/backend/ts/http.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/echo/backend/ts/http.ts b/examples/echo/backend/ts/http.ts
index b68d546..7e19762 100644
--- a/examples/echo/backend/ts/http.ts
+++ b/examples/echo/backend/ts/http.ts
@@ -111,6 +111,7 @@ function doProcessJson(logger: Logger, handler: ProcessJsonHandler, req: http.In
     if (req.headers['content-type'] !== 'application/json') {
         return response(406, res);
     }
+    req.setEncoding('utf8');
     req.on('data', (chunk) => {
         data += chunk;
     });
-- 
2.43.0


From 32641fbccb2093d6a83e77b7454c49308853db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:25 +0000
Subject: [PATCH 35/36] fix: echo example breaks off answers its proxy target
 broke off

---
 examples/echo/backend/ts/http.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/examples/echo/backend/ts/http.ts b/examples/echo/backend/ts/http.ts
index 7e19762..8f60ee9 100644
--- a/examples/echo/backend/ts/http.ts
+++ b/examples/echo/backend/ts/http.ts
@@ -91,10 +91,18 @@ function doProxy(logger: Logger, target: string, req: http.IncomingMessage, res:
     const proxy = http.request(options, (targetRes) => {
         res.writeHead(targetRes.statusCode || 500, targetRes.headers);
         targetRes.pipe(res, {end: true});
+        targetRes.on('error', (err) => {
+            logger.warn(`proxy target error occured: ${err.message}`);
+            res.destroy();
+        });
     });
 
     proxy.on('error', (err) => {
         logger.warn(`proxy target error occured: ${err.message}`);
+        if (res.headersSent) {
+            // Part of the answer is already sent, it cannot be replaced
+            return res.destroy();
+        }
         response(500, res);
     });
 
-- 
2.43.0


From eba76f4622761e7756bba7089f66053ba5ec5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:18 +0000
Subject: [PATCH 36/36] Revert the repairs of the echo example: examples are no
 part of what is changed

---
 examples/echo/backend/ts/http.ts |  9 ---------
 examples/echo/backend/ts/sdp.ts  | 10 +++++-----
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/examples/echo/backend/ts/http.ts b/examples/echo/backend/ts/http.ts
index 8f60ee9..b68d546 100644
--- a/examples/echo/backend/ts/http.ts
+++ b/examples/echo/backend/ts/http.ts
@@ -91,18 +91,10 @@ function doProxy(logger: Logger, target: string, req: http.IncomingMessage, res:
     const proxy = http.request(options, (targetRes) => {
         res.writeHead(targetRes.statusCode || 500, targetRes.headers);
         targetRes.pipe(res, {end: true});
-        targetRes.on('error', (err) => {
-            logger.warn(`proxy target error occured: ${err.message}`);
-            res.destroy();
-        });
     });
 
     proxy.on('error', (err) => {
         logger.warn(`proxy target error occured: ${err.message}`);
-        if (res.headersSent) {
-            // Part of the answer is already sent, it cannot be replaced
-            return res.destroy();
-        }
         response(500, res);
     });
 
@@ -119,7 +111,6 @@ function doProcessJson(logger: Logger, handler: ProcessJsonHandler, req: http.In
     if (req.headers['content-type'] !== 'application/json') {
         return response(406, res);
     }
-    req.setEncoding('utf8');
     req.on('data', (chunk) => {
         data += chunk;
     });
diff --git a/examples/echo/backend/ts/sdp.ts b/examples/echo/backend/ts/sdp.ts
index 5f5f084..9786ca6 100644
--- a/examples/echo/backend/ts/sdp.ts
+++ b/examples/echo/backend/ts/sdp.ts
@@ -130,7 +130,7 @@ export function serializeSDP(sdp: SDP): string {
             sdp.phones.map((p) => `p=${p}`),
             sdp.connection ? `c=${sdp.connection.net} ${sdp.connection.address.type} ${sdp.connection.address.value}` : [],
             sdp.bandwidth.map(({type, value}) => `b=${type}:${value}`),
-            sdp.time.map((t) => `t=${t}`),
+            `t=${sdp.time}`,
             sdp.zone ? `z=${sdp.zone}` : [],
             sdp.key ? `k=${sdp.key}` : [],
             sdp.attrs.map((a) => `a=${a}`),
@@ -174,7 +174,7 @@ function parseProto(sdp: string): ParseResult<V> {
 
 function parseOrigin(str: string): ParseResult<Origin> {
     // o=<username> <sess-id> <sess-version> <nettype> <addrtype> <unicast-address>
-    const result = /^o=([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*)\r\n/.exec(str);
+    const result = /^o=(.*) (.*) (.*) (.*) (.*) (.*)\r\n/.exec(str);
     if (!result) {
         return makeParseError(`cannot parse origin: ${str}`);
     }
@@ -196,7 +196,7 @@ function parseOrigin(str: string): ParseResult<Origin> {
 
 function parseConnection(str: string): ParseResult<SessionConnection> {
     // o=<username> <sess-id> <sess-version> <nettype> <addrtype> <unicast-address>
-    const result = /^c=([^ \r\n]*) ([^ \r\n]*) ([^ \r\n]*)\r\n/.exec(str);
+    const result = /^c=(.*) (.*) (.*)\r\n/.exec(str);
     if (!result) {
         if (str.startsWith('c=')) {
             return makeParseError(`cannot parse connection: ${str}`);
@@ -224,7 +224,7 @@ function makeParseBandwidth() {
         }
         try {
             const bws = r.obj.map((str: string) => {
-                const v = /^([^:]*):(.*)$/.exec(str);
+                const v = /(.*):.*/.exec(str);
                 if (!v) {
                     throw new Error(`failed to parse bandwidth: ${str}`);
                 }
@@ -271,7 +271,7 @@ function parseMediaDescriptor(str: string): ParseResult<MediaDescriptor> {
 
 function parseMedia(str: string): ParseResult<Media> {
     //  media-field = %x6d "=" media SP port ["/" integer] SP proto 1*(SP fmt) CRLF
-    const result = /^m=([^ \r\n]*) ([^ \/\r\n]*)(\/[^ \r\n]*)? ([^ \r\n]*)((?: [^ \r\n]+)+)\r\n/.exec(str);
+    const result = /^m=([^ ]*) ([^ ]*)(\/[^ ]*)? ([^ ]*)( .*)+\r\n/.exec(str);
     if (!result) {
         return makeParseError(`cannot parse media: ${str}`);
     }
-- 
2.43.0

