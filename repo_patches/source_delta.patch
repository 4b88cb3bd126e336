From 6418201cf5aa7a22e5f6124d41f838c8a2a574b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 01/48] fix: require a verified HANDSHAKE2 before the server
 accepts HANDSHAKE4

---
 privcount/protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..7977a59 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,11 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # the client cookie is only set after the client has proven that
+            # it knows the shared secret: a client that skips HANDSHAKE2 has
+            # not authenticated
+            if (self.client_cookie is not None and
+                self.handshake4_verify(event_line)):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From 97ce55a2c9ba374f621f392927ccf03771c38cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 02/48] fix: keep the share keeper's previous counters until a
 start has imported every share

---
 privcount/share_keeper.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..edc7af2 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -141,8 +141,10 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         else:
             config['counters'] = combined_counters
 
-        self.keystore = SecureCounters(config['counters'], counter_modulus(),
-                                       require_generate_noise=False)
+        # only keep the new counters once every share has been imported:
+        # a start that fails part way must not leave a partial sum behind
+        keystore = SecureCounters(config['counters'], counter_modulus(),
+                                  require_generate_noise=False)
         share_list = config['shares']
 
         private_key = load_private_key_file(self.config['key'])
@@ -151,7 +153,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
             secret = decrypt(private_key, encrypted_secret)
             # TODO: secure delete
             share['secret'] = secret
-            blinding_result = self.keystore.import_blinding_share(share)
+            blinding_result = keystore.import_blinding_share(share)
             if not blinding_result:
                 # the structure of the imported share did not match the
                 # configured counters
@@ -167,6 +169,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                      .format(len(share_list), len(config['counters']), count_bins(config['counters'])))
         # TODO: secure delete
         del private_key
+        self.keystore = keystore
         return {}
 
     def do_stop(self, config):
-- 
2.43.0


From 5d2b86a25310e5bb21ec982426b1027374539c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 03/48] fix: record the start of a round only when the round is
 accepted

---
 privcount/data_collector.py | 3 +++
 privcount/node.py           | 3 ---
 privcount/share_keeper.py   | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..06ae1cb 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -267,6 +267,9 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                                      config.get('circuit_failure_lists', []),
                                      config.get('onion_address_lists', []))
 
+        # save various config items for the end of the round
+        self.set_round_start(config)
+
         defer_time = config['defer_time'] if 'defer_time' in config else 0.0
         logging.info("got start command from tally server, starting aggregator in {}".format(format_delay_time_wait(defer_time, 'at')))
         self.expected_aggregator_start_time = time() + defer_time
diff --git a/privcount/node.py b/privcount/node.py
index be73566..29eb911 100644
--- a/privcount/node.py
+++ b/privcount/node.py
@@ -490,9 +490,6 @@ class PrivCountClient(PrivCountNode):
             logging.warning("start command from tally server cannot be completed due to an enforced delay")
             return None
 
-        # save various config items for the end of the round
-        self.set_round_start(start_config)
-
         # combine bins and sigmas
         return combine_counters(start_config['counters'],
                                 start_config['noise']['counters'])
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index edc7af2..761fd29 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -170,6 +170,8 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         # TODO: secure delete
         del private_key
         self.keystore = keystore
+        # save various config items for the end of the round
+        self.set_round_start(config)
         return {}
 
     def do_stop(self, config):
-- 
2.43.0


From 31a51cc262ad767e695baf5b9a3547da9921ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 04/48] fix: refuse a start while collecting before replacing
 the running round's config

---
 privcount/data_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 06ae1cb..fbbb5ce 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -200,6 +200,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first
+        if self.aggregator is not None:
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -214,11 +219,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From dc2b53add6f6cb9ce3da0aec10a6272b3a2b1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 05/48] fix: refuse a start with an unexpected share keeper key
 without an exception

---
 privcount/data_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index fbbb5ce..1c1eaa2 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -234,8 +234,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
             if requested_sk_digest not in expected_sk_digests:
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
-
-            expected_sk_digests.remove(requested_sk_digest)
+            else:
+                expected_sk_digests.remove(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From 443989b7478c852b023d6d5462753d348af2642c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:08 +0000
Subject: [PATCH 06/48] fix: ignore the deferred start of a round that was
 already stopped

---
 privcount/data_collector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 1c1eaa2..7ac8885 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -277,7 +277,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         # sync the time that we start listening for Tor events
         self.is_aggregator_pending = True
         aggregator_deferred = task.deferLater(reactor, defer_time,
-                                              self._start_aggregator_deferred)
+                                              self._start_aggregator_deferred,
+                                              self.aggregator)
         aggregator_deferred.addErrback(errorCallback)
         # return the generated shares now
         shares = self.aggregator.get_shares()
@@ -296,12 +297,14 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                      .format(len(shares), len(dc_counters), count_bins(dc_counters)))
         return shares
 
-    def _start_aggregator_deferred(self):
+    def _start_aggregator_deferred(self, aggregator):
         '''
         This function is called using deferLater, so any exceptions will be
         handled by errorCallback.
+        If the round that created aggregator was stopped in the meantime, do
+        nothing: a later round has its own deferred start.
         '''
-        if self.is_aggregator_pending:
+        if self.is_aggregator_pending and self.aggregator is aggregator:
             self.is_aggregator_pending = False
             self.aggregator.start()
             # schedule a once-off check that the aggregator has connected
-- 
2.43.0


From 7debc5b5ec0b873068f724aff2dd38174430a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:22 +0000
Subject: [PATCH 07/48] fix: allow multiple bins in HSDir2Store UploadDelayTime
 counters

---
 privcount/counter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/counter.py b/privcount/counter.py
index c6fd576..47b24bf 100644
--- a/privcount/counter.py
+++ b/privcount/counter.py
@@ -6419,7 +6419,10 @@ def check_bin_count_matches_name(bins):
         # handle template counters by stripping the non-template part
         key_template, _, _ = key.partition("_")
         # the TrafficModel DelayTime counters are single bin
-        if key_template.endswith("Count") or key_template.endswith("DelayTime"):
+        # (but the HSDir2Store UploadDelayTime counters are histograms)
+        if (key_template.endswith("Count") or
+            ("TrafficModel" in key_template and
+             key_template.endswith("DelayTime"))):
             if bin_count != 1:
                 logging.warning("counter {} ends in Count, but has {} bins: {}"
                                 .format(key, bin_count, bins[key]))
-- 
2.43.0


From 12525c1d20a8906166ea399059e2baf7afc2e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:09 +0000
Subject: [PATCH 08/48] fix: match domain suffixes when exact matches are also
 collected

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 7ac8885..a2e5d4e 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1483,7 +1483,7 @@ class Aggregator(ReconnectingClientFactory):
                 # exact matches match the first bin
                 # suffix matches match an arbitrary bin (which is ok, because
                 # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
+                if self.needs_domain_exact_match and domain_exact_match_bin != float('inf'):
                     domain_suffix_match_bin = domain_exact_match_bin
                 else:
                     # check for a suffix match
-- 
2.43.0


From 02af98fe0184165ba4c6f416694f5a39bdb46724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 09/48] fix: increment versioned onion role circuit counters by
 their valid names

---
 privcount/data_collector.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index a2e5d4e..7853394 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2547,6 +2547,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
     def _increment_circuit_close_hs_status_counters(self, counter_prefix,
+                                                    hs_role_name,
                                                     counter_suffix,
                                                     hs_version,
                                                     is_active,
@@ -2556,16 +2557,18 @@ class Aggregator(ReconnectingClientFactory):
         '''
         Increment bin by inc for the counter variants starting with
         counter_prefix and ending in counter_suffix, using hs_version,
-        is_active and is_failure to create counter names.
+        hs_role_name, is_active and is_failure to create counter names.
 
         Unknown counter names are ignored.
         '''
         assert counter_prefix is not None
+        assert hs_role_name is not None
         assert counter_suffix is not None
         assert hs_version is None or hs_version == 2 or hs_version == 3
 
         # HSDir/Intro/Rend ...
-        self._increment_circuit_close_status_counters(counter_prefix,
+        self._increment_circuit_close_status_counters('{}{}'
+                                                      .format(counter_prefix, hs_role_name),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2579,8 +2582,8 @@ class Aggregator(ReconnectingClientFactory):
         else:
             hs_version_name = '{}'.format(hs_version)
 
-        self._increment_circuit_close_status_counters('{}{}'
-                                                      .format(counter_prefix, hs_version_name),
+        self._increment_circuit_close_status_counters('{}{}{}'
+                                                      .format(counter_prefix, hs_version_name, hs_role_name),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2729,6 +2732,7 @@ class Aggregator(ReconnectingClientFactory):
         # HSDir /2/3 /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
         # Intro/Rend /U/2/3 /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
         self._increment_circuit_close_hs_status_counters(position,
+                                                         "",
                                                          counter_suffix,
                                                          hs_version,
                                                          is_active,
@@ -2739,8 +2743,8 @@ class Aggregator(ReconnectingClientFactory):
         if hs_role is not None:
             # HSDir /2/3 Client/Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 Client/Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}'
-                                                             .format(position, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
+                                                             hs_role,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
@@ -2751,8 +2755,9 @@ class Aggregator(ReconnectingClientFactory):
             assert hop is not None
             # HSDir /2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}{}'
-                                                             .format(position, hop, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
+                                                             '{}{}'
+                                                             .format(hop, hs_role),
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
-- 
2.43.0


From 7a66035796244fb98655115bf1106cda3390bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 10/48] fix: increment Tor2Web circuit counters by their valid
 names

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 7853394..34f8759 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2723,7 +2723,7 @@ class Aggregator(ReconnectingClientFactory):
             if hs_role is None:
                 hop = None
             elif hs_role == "Client":
-                hop = "Tor2web"
+                hop = "Tor2Web"
             else:
                 hop = "SingleOnion"
         else:
-- 
2.43.0


From 103e15eb21ce086502188c011e7ad7373d1bd53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 11/48] fix: increment circuit counters by activity and outcome
 by their valid names

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 34f8759..f2d5780 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2541,7 +2541,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0


From 200385f6009633097da5aa1adc13fb5a289a2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:22 +0000
Subject: [PATCH 12/48] fix: ignore circuit events with invalid position flags

---
 privcount/data_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index f2d5780..ec8d132 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1955,11 +1955,6 @@ class Aggregator(ReconnectingClientFactory):
         if prefix is None:
             prefix = ""
 
-        # Work around some unexpected flags from Tor
-        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
-                                                    is_mandatory=is_mandatory,
-                                                    prefix=prefix)
-
         # Validate the potentially mandatory fields
 
         if not is_float_valid("EventTimestamp",
@@ -2041,6 +2036,11 @@ class Aggregator(ReconnectingClientFactory):
                              is_mandatory=False):
             return False
 
+        # Work around some unexpected flags from Tor, now that we know the flags are valid
+        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
+                                                    is_mandatory=is_mandatory,
+                                                    prefix=prefix)
+
         # This flag is only present for HSDir and Intro positions,
         # but is present whether it is 0 or 1
         if not is_flag_valid("{}IsHSClientSideFlag".format(prefix),
-- 
2.43.0


From 69aa199006f04f09ddcc2722f3c4de7f27b97b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:22 +0000
Subject: [PATCH 13/48] fix: reject stream events with malformed numbers

---
 privcount/data_collector.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index ec8d132..7060c3b 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1190,8 +1190,13 @@ class Aggregator(ReconnectingClientFactory):
     def _handle_bytes_event(self, items):
         assert(len(items) == Aggregator.STREAM_BYTES_ITEMS)
 
-        chanid, circid, strmid, is_outbound, bw_bytes = [int(v) for v in items[0:5]]
-        ts = float(items[5])
+        try:
+            chanid, circid, strmid, is_outbound, bw_bytes = [int(v) for v in items[0:5]]
+            ts = float(items[5])
+        except ValueError as e:
+            logging.warning("Rejected malformed PRIVCOUNT_STREAM_BYTES_TRANSFERRED event: {}"
+                            .format(e))
+            return False
 
         # TODO: secure delete
         #del items
@@ -1342,11 +1347,16 @@ class Aggregator(ReconnectingClientFactory):
     def _handle_stream_event(self, items):
         assert(len(items) == Aggregator.STREAM_ENDED_ITEMS)
 
-        chanid, circid, strmid, port, readbw, writebw = [int(v) for v in items[0:6]]
-        start, end = float(items[6]), float(items[7])
-        remote_host = items[8]
-        remote_ip = items[9]
-        exit_stream_number = int(items[10])
+        try:
+            chanid, circid, strmid, port, readbw, writebw = [int(v) for v in items[0:6]]
+            start, end = float(items[6]), float(items[7])
+            remote_host = items[8]
+            remote_ip = items[9]
+            exit_stream_number = int(items[10])
+        except ValueError as e:
+            logging.warning("Rejected malformed PRIVCOUNT_STREAM_ENDED event: {}"
+                            .format(e))
+            return False
 
         # TODO: secure delete
         #del items
-- 
2.43.0


From f62c65f7062c07a2662581ce5de403679306ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:24 +0000
Subject: [PATCH 14/48] fix: ignore malformed viterbi paths before counting
 them

---
 privcount/traffic_model.py | 46 +++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 7e36aa5..f4823e3 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -382,11 +382,14 @@ class TrafficModel(object):
         based on the viterbi path for packets sent on this stream.
         '''
         if self.packet_hmm != None:
+            path = HiddenMarkovModel.parse_viterbi_result(viterbi_result)
+            if path is None:
+                return
             # the fact that we got an event means that we observed a stream
             secure_counters.increment('ExitStreamTrafficModelStreamCount',
                                       bin=SINGLE_BIN,
                                       inc=1)
-            self.packet_hmm.increment_counters(viterbi_result, secure_counters)
+            self.packet_hmm.increment_counters(path, secure_counters)
 
     def increment_streams_counters(self, viterbi_result, secure_counters):
         '''
@@ -394,11 +397,14 @@ class TrafficModel(object):
         based on the viterbi path for packets sent on this stream.
         '''
         if self.stream_hmm != None:
+            path = HiddenMarkovModel.parse_viterbi_result(viterbi_result)
+            if path is None:
+                return
             # the fact that we got an event means that we observed a stream
             secure_counters.increment('ExitCircuitTrafficModelCircuitCount',
                                       bin=SINGLE_BIN,
                                       inc=1)
-            self.stream_hmm.increment_counters(viterbi_result, secure_counters)
+            self.stream_hmm.increment_counters(path, secure_counters)
 
     def update_from_tallies(self, tallies, trans_inertia=0.5, emit_inertia=0.5):
         '''
@@ -522,24 +528,38 @@ class HiddenMarkovModel(object):
             labels[static_label] = static_label
         return labels
 
-    def increment_counters(self, viterbi_result, secure_counters):
+    @staticmethod
+    def parse_viterbi_result(viterbi_result):
         '''
-        Increment the appropriate secure counter labels for this model given the observed
-        list of events specifying when bytes were transferred in Tor.
-          viterbi_result: the viterbi path through our model given the observed delays
-          secure_counters: the SecureCounters object whose counters should get incremented
-            as a result of the observed bytes events
+        Parse the viterbi path through our model given the observed delays.
 
         The viterbi_result is encoded as a json string, e.g.:
           '[["m10s1";"+";35432];["m2s4";"+";0];["m4s2";"-";100];["m4sEnd";"F";0]]'
 
         This is a list of observations, where each observation has a state name,
         an observation code, and a delay value.
-        '''
 
-        # python lets you encode with non-default separators, but not decode
-        viterbi_result = viterbi_result.replace(';',',')
-        path = loads(viterbi_result)
+        Returns a list with a (state, observation, delay) tuple for each
+        observation, or an empty tuple for each incomplete observation.
+        Returns None if the viterbi_result is malformed.
+        '''
+        try:
+            # python lets you encode with non-default separators, but not decode
+            path = loads(viterbi_result.replace(';',','))
+            return [(str(packet[0]), str(packet[1]), int(packet[2])) if len(packet) >= 3 else ()
+                    for packet in path]
+        except (ValueError, TypeError, KeyError, OverflowError) as e:
+            logging.warning("Ignored malformed viterbi path: {}".format(e))
+            return None
+
+    def increment_counters(self, path, secure_counters):
+        '''
+        Increment the appropriate secure counter labels for this model given the observed
+        list of events specifying when bytes were transferred in Tor.
+          path: the parsed viterbi path through our model given the observed delays
+          secure_counters: the SecureCounters object whose counters should get incremented
+            as a result of the observed bytes events
+        '''
 
         # empty lists are possible, when there was in error in the Tor
         # viterbi code, or when a stream ended with no data sent.
@@ -548,7 +568,7 @@ class HiddenMarkovModel(object):
             if len(packet) < 3:
                 continue
 
-            state, obs, delay = str(packet[0]), str(packet[1]), int(packet[2])
+            state, obs, delay = packet
 
             # delay of 0 indicates the packets were observed at the same time
             # log(x=0) is undefined, and log(x<1) is negative
-- 
2.43.0


From 4e4f6a84ed5d1ae4a4a3f1cfa73b48b1a8faeed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 15/48] fix: reject control port secret files that are too
 short

---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 7977a59..96a24f3 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1479,6 +1479,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From e758a796568323988362564ea3fe1abe0845973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 16/48] fix: encode quoted control port strings that need
 escapes

---
 privcount/protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 96a24f3..f43e2c7 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1208,9 +1208,9 @@ class TorControlProtocol(object):
             # quoted strings escape \ and " with \, then quote with "
             # the order of these replacements is important: they ensure that
             # " becomes \" rather than \\"
-            cont_str = cont_str.replace("\\", "\\\\")
-            cont_str = cont_str.replace("\"", "\\\"")
-            encoded = "\"" + cont_str + "\""
+            escaped = cont_str.replace("\\", "\\\\")
+            escaped = escaped.replace("\"", "\\\"")
+            encoded = "\"" + escaped + "\""
         # sanity check
         assert TorControlProtocol.decodeControllerString(encoded) == cont_str
         return encoded
-- 
2.43.0


From afa2b9ece5f143a00944a2506f2fc3e88a7900ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:35 +0000
Subject: [PATCH 17/48] fix: publish no tally when a participant returned no
 counts

---
 privcount/tally_server.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..9592d03 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2199,7 +2199,10 @@ class CollectionPhase(object):
 
         # keep going, we want the context for debugging
         tally_was_successful = False
-        if len(self.final_counts) <= 0:
+        if self.is_error():
+            # the counts that were returned are still blinded
+            logging.warning("no tally results to write, because a client did not return its counts!")
+        elif len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
         else:
             tallied_counter = SecureCounters(self.counters_config,
-- 
2.43.0


From f2dce45f259fe8d269ee43ff399afe2d7d5d0e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 18/48] fix: forget collectors that come back running an
 insecure version

---
 privcount/tally_server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 9592d03..12cd07a 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1446,6 +1446,8 @@ class TallyServer(ServerFactory, PrivCountServer):
 
         # Warn and ignore invalid clients
         if not self.is_valid_client_version(uid, status):
+            # the client may have run an acceptable version before
+            self.clients.pop(uid, None)
             return
 
         # only data collectors have a fingerprint
@@ -1604,7 +1606,7 @@ class TallyServer(ServerFactory, PrivCountServer):
         called by protocol
         return None to indicate we shouldnt start the client yet
         '''
-        if self.collection_phase is not None:
+        if self.collection_phase is not None and client_uid in self.clients:
             return self.collection_phase.get_start_config(client_uid)
         else:
             return None
-- 
2.43.0


From a03444c99d08ee29b19a982711d28e1630af9df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 19/48] fix: reject tally server settings of the wrong type

---
 privcount/node.py         | 2 ++
 privcount/tally_server.py | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/privcount/node.py b/privcount/node.py
index 29eb911..d9fc146 100644
--- a/privcount/node.py
+++ b/privcount/node.py
@@ -199,6 +199,7 @@ class PrivCountNode(object):
         # larger sigma values should have a larger absolute limit, because
         # float_accuracy() is a proportion of the value,
         # but we can't do that calculation here
+        assert isinstance(tolerance, (int, long, float))
         assert tolerance >= float_accuracy()
         return tolerance
 
@@ -216,6 +217,7 @@ class PrivCountNode(object):
             logging.info("delay_period not specified, using default %d",
                          PrivCountNode.DEFAULT_DELAY_PERIOD)
             return PrivCountNode.DEFAULT_DELAY_PERIOD
+        assert isinstance(conf['delay_period'], (int, long, float))
         if conf['delay_period'] < 0:
             logging.warning("delay_period %d invalid, using default %d",
                             conf['delay_period'],
diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 12cd07a..fcf85c6 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -904,6 +904,8 @@ class TallyServer(ServerFactory, PrivCountServer):
             # Set the default periods
             ts_conf.setdefault('event_period', 600)
             ts_conf.setdefault('checkin_period', 600)
+            for key in ['collect_period', 'event_period', 'checkin_period']:
+                assert isinstance(ts_conf[key], (int, long, float))
 
             # The event period should be less than or equal to half the
             # collect period, otherwise privcount sometimes takes an extra
@@ -942,6 +944,9 @@ class TallyServer(ServerFactory, PrivCountServer):
             ts_conf['sigma_decrease_tolerance'] = \
                 self.get_valid_sigma_decrease_tolerance(ts_conf)
 
+            # in python 2, any string is greater than any number
+            for key in ['listen_port', 'sk_threshold', 'dc_threshold']:
+                assert isinstance(ts_conf[key], (int, long))
             assert ts_conf['listen_port'] > 0
             assert ts_conf['sk_threshold'] > 0
             assert ts_conf['dc_threshold'] > 0
@@ -961,8 +966,8 @@ class TallyServer(ServerFactory, PrivCountServer):
             assert ts_conf['checkin_period'] > 0
             # The TS runs one round by default
             ts_conf.setdefault('continue', False)
-            assert (isinstance(ts_conf['continue'], bool) or
-                    ts_conf['continue'] >= 0)
+            assert isinstance(ts_conf['continue'], (bool, int, long))
+            assert ts_conf['continue'] >= 0
 
             # check the hard-coded counter values are sane
             assert counter_modulus() > 0
-- 
2.43.0


From e5e2a011650d295bac6f2763e4305b5a11a5e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 20/48] fix: keep the current config when the tally server
 config is malformed

---
 privcount/tally_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index fcf85c6..d70d6f5 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -1013,6 +1013,10 @@ class TallyServer(ServerFactory, PrivCountServer):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception:
+            # unreadable files, bad yaml, bad dates, bad patterns, ...
+            logging.warning("problem reading config file: malformed data")
+            log_error()
 
     MIN_SAFE_RTT = 2.0
     TYPICAL_RTT_JITTER = 1.0
-- 
2.43.0


From f222b5cc08457db2ad1008c9d209e51afd5d7f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:25 +0000
Subject: [PATCH 21/48] fix: reload match lists when the list of files changes

---
 privcount/tally_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index d70d6f5..10ec3cd 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -434,6 +434,9 @@ class TallyServer(ServerFactory, PrivCountServer):
                 new_config[files_key][i] = file_path
                 if has_list_changed:
                     has_any_previous_list_changed = True
+            # files can be removed or reordered without any list changing
+            if new_config[files_key] != old_match_files:
+                has_any_previous_list_changed = True
             if not has_any_previous_list_changed:
                 # skip processing the lists into new_processed_config,
                 # because they have not changed
-- 
2.43.0


From 7223d91a18b324561e9cb0f2201d155cffd47da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 22/48] fix: replace the whole client config when it changes

---
 privcount/data_collector.py | 10 ++++++----
 privcount/share_keeper.py   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 7060c3b..069caaa 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -398,13 +398,15 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 logging.info("using config = %s", str(self.config))
             else:
                 changed = False
-                for k in dc_conf:
-                    if k not in self.config or dc_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], dc_conf[k]))
-                        self.config[k] = dc_conf[k]
+                for k in set(self.config.keys() + dc_conf.keys()):
+                    if (k not in self.config or k not in dc_conf or
+                        dc_conf[k] != self.config[k]):
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), dc_conf.get(k)))
                         changed = True
                 if not changed:
                     logging.debug('no config changes found')
+                # replace the whole config, so that removed keys are removed
+                self.config = dc_conf
 
         except AssertionError:
             logging.warning("problem reading config file: invalid data")
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 761fd29..7eea22c 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -247,13 +247,15 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 logging.info("using config = %s", str(self.config))
             else:
                 changed = False
-                for k in sk_conf:
-                    if k not in self.config or sk_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], sk_conf[k]))
-                        self.config[k] = sk_conf[k]
+                for k in set(self.config.keys() + sk_conf.keys()):
+                    if (k not in self.config or k not in sk_conf or
+                        sk_conf[k] != self.config[k]):
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), sk_conf.get(k)))
                         changed = True
                 if not changed:
                     logging.debug('no config changes found')
+                # replace the whole config, so that removed keys are removed
+                self.config = sk_conf
 
         except AssertionError:
             logging.warning("problem reading config file: invalid data")
-- 
2.43.0


From 65ac00a5bfdaa9652f9ad15c5cac5bf91eae809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 23/48] fix: keep the current client config when the config
 file is malformed

---
 privcount/data_collector.py | 4 ++++
 privcount/share_keeper.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 069caaa..d94f96b 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -414,6 +414,10 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception:
+            # unreadable files, bad yaml, settings of the wrong type, ...
+            logging.warning("problem reading config file: malformed data")
+            log_error()
 
 class Aggregator(ReconnectingClientFactory):
     '''
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 7eea22c..224dd6e 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -263,3 +263,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         except KeyError:
             logging.warning("problem reading config file: missing required keys")
             log_error()
+        except Exception:
+            # unreadable files, bad yaml, settings of the wrong type, ...
+            logging.warning("problem reading config file: malformed data")
+            log_error()
-- 
2.43.0


From b79f631b9c14c065c2576ba9af29e97fb3dfaffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 24/48] fix: reject client configs without a tally server
 address

---
 privcount/data_collector.py | 3 +++
 privcount/share_keeper.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index d94f96b..846b135 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -389,6 +389,9 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
 
             assert validate_connection_config(dc_conf['tally_server_info'],
                                               must_have_ip=True)
+            # check-ins connect to this address
+            assert 'ip' in dc_conf['tally_server_info']
+            assert 'port' in dc_conf['tally_server_info']
             assert validate_connection_config(dc_conf['event_source'])
 
             assert 'share_keepers' in dc_conf
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 224dd6e..0633866 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -241,6 +241,9 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
 
             assert validate_connection_config(sk_conf['tally_server_info'],
                                               must_have_ip=True)
+            # check-ins connect to this address
+            assert 'ip' in sk_conf['tally_server_info']
+            assert 'port' in sk_conf['tally_server_info']
 
             if self.config == None:
                 self.config = sk_conf
-- 
2.43.0


From 88b3f22ce709ef533af92a06d7920d133c51c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 25/48] fix: reject data collector rotate periods of the wrong
 type

---
 privcount/data_collector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 846b135..83d4615 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -376,6 +376,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
             dc_conf['rotate_period'] = dc_conf.get('rotate_period',
                                           conf.get('rotate_period',
                                                    DataCollector.DEFAULT_ROTATE_PERIOD))
+            # in python 2, any string is greater than any number
+            assert isinstance(dc_conf['rotate_period'], (int, long, float))
             assert dc_conf['rotate_period'] > 0
 
             # Data collectors use SETCONF by default
-- 
2.43.0


From 9f4c84016ee77ef78acdf57d8877d037398bbbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 26/48] fix: allocate noise when there is a dummy counter in
 the noise config

---
 privcount/statistics_noise.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index efaebed..009f65a 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -210,6 +210,10 @@ def get_opt_privacy_allocation(epsilon, delta, stats_parameters,
     min_sigma_ratio = None
     max_sigma_ratio = None
     for param, (sensitivity, val) in stats_parameters.iteritems():
+        # ignore dummy counters: their ratio is always zero, and a zero sigma
+        # ratio consumes no epsilon, but adds no noise to any counter
+        if sensitivity == 0.0 and val == 0.0:
+            continue
         ratio = get_expected_noise_ratio(excess_noise_ratio,
                                          approx_sigmas[param],
                                          val)
@@ -217,6 +221,10 @@ def get_opt_privacy_allocation(epsilon, delta, stats_parameters,
             min_sigma_ratio = ratio
         if (max_sigma_ratio is None) or (ratio > max_sigma_ratio):
             max_sigma_ratio = ratio
+    # if there are only dummy counters, there is nothing to allocate
+    if min_sigma_ratio is None:
+        min_sigma_ratio = 0.0
+        max_sigma_ratio = 0.0
     # get optimal sigma ratio
     opt_sigma_ratio = interval_boolean_binary_search(\
         lambda x: sum((get_epsilon_consumed(stats_parameters, excess_noise_ratio, x, delta,
-- 
2.43.0


From 88ec2d6d1a3dd1a94136e7028b3a675017a7522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 27/48] fix: calculate small tail probabilities accurately

---
 privcount/statistics_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index 009f65a..f5dc8cf 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -14,7 +14,8 @@ def satisfies_dp(sensitivity, epsilon, delta, std):
     # find lowest value at which epsilon differential-privacy is satisfied
     lower_x = -(float(epsilon) * (std**2.0) / sensitivity) + sensitivity/2.0
     # determine lower tail probability of normal distribution w/ mean of zero
-    lower_tail_prob = (1.0 + math.erf(lower_x / std / math.sqrt(2.0))) / 2.0
+    # (1.0 + erf(x) loses the low-order digits of small probabilities)
+    lower_tail_prob = math.erfc(-lower_x / std / math.sqrt(2.0)) / 2.0
     # explicitly return Boolean value to avoid returning numpy type
     if (lower_tail_prob <= delta):
         return True
-- 
2.43.0


From 10d80692fa250619435db1e067a7a0eebe634d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 28/48] fix: report the noise ratio of the sampled value

---
 privcount/statistics_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index f5dc8cf..ee97da7 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -366,7 +366,8 @@ def get_noise_allocation(noise_parameters,
         noise_ratio = get_expected_noise_ratio(
             excess_noise_ratio,
             counters[stat]['sigma'],
-            counters[stat]['estimated_value'])
+            # the estimated value, after sampling
+            stats_parameters[stat][1])
         counters[stat]['expected_noise_ratio'] = noise_ratio
     if sanity_check is not None:
         counters[sanity_check] = get_sanity_check_counter()
-- 
2.43.0


From 3ec2c370662fe90c3811c8047fd4c981ad80825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 29/48] fix: allow for rounding when searching for the sigma
 ratio

---
 privcount/statistics_noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index ee97da7..b8741e4 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -226,6 +226,9 @@ def get_opt_privacy_allocation(epsilon, delta, stats_parameters,
     if min_sigma_ratio is None:
         min_sigma_ratio = 0.0
         max_sigma_ratio = 0.0
+    # the approximate sigmas and the epsilons they consume are only accurate to
+    # within a tolerance, so the maximum can consume slightly too much epsilon
+    max_sigma_ratio *= 1.0 + DEFAULT_SIGMA_RATIO_TOLERANCE
     # get optimal sigma ratio
     opt_sigma_ratio = interval_boolean_binary_search(\
         lambda x: sum((get_epsilon_consumed(stats_parameters, excess_noise_ratio, x, delta,
-- 
2.43.0


From 87fb47ae1ae30c116a16c8b28c997d403488457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 30/48] fix: search far enough for the epsilon of a small sigma

---
 privcount/statistics_noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index b8741e4..0799fe9 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -149,6 +149,8 @@ def get_differentially_private_epsilon(sensitivity, sigma, delta,
     if sigma == 0.0:
         return 0.0
     epsilon_upper_bound = (float(sensitivity)/sigma) * (2.0 *  math.log(2.0/delta))**(0.5)
+    # this term is only significant when sigma is small
+    epsilon_upper_bound += (float(sensitivity)/sigma)**2.0 / 2.0
     epsilon_lower_bound = 0.0
     epsilon = interval_boolean_binary_search(\
         lambda x: satisfies_dp(sensitivity, x, delta, sigma), epsilon_lower_bound,
-- 
2.43.0


From 2ac4398bb0d9809db30518bc0a18bd4ade947a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 31/48] fix: use the circuit count for stream models

---
 privcount/traffic_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index f4823e3..acdbd63 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -510,14 +510,19 @@ class HiddenMarkovModel(object):
         ExitStreamTrafficModelStreamCount
         ExitStreamTrafficModelTransitionCount
 
+        ExitCircuitTrafficModelCircuitCount
         ExitCircuitTrafficModelDelayTime
         ExitCircuitTrafficModelEmissionCount
         ExitCircuitTrafficModelLogDelayTime
         ExitCircuitTrafficModelSquaredLogDelayTime
-        ExitCircuitTrafficModelStreamCount
         ExitCircuitTrafficModelTransitionCount
         '''
-        static_labels = ['{}StreamCount'.format(self.prefix),
+        # packet paths are counted once per stream, stream paths once per circuit
+        if self.prefix.startswith('ExitCircuit'):
+            path_count = 'CircuitCount'
+        else:
+            path_count = 'StreamCount'
+        static_labels = ['{}{}'.format(self.prefix, path_count),
                          '{}EmissionCount'.format(self.prefix),
                          '{}TransitionCount'.format(self.prefix),
                          '{}DelayTime'.format(self.prefix),
-- 
2.43.0


From 008f4811390bc8ddbe8c892eac64cd6bedf66eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 32/48] fix: return all traffic model bins when there is no
 noise config

---
 privcount/traffic_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index acdbd63..893fb04 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -370,7 +370,8 @@ class TrafficModel(object):
         for counter_label in label_map:
             template_label = label_map[counter_label]
             # only count the label if it was in the config
-            if template_label in templated_noise_config['counters']:
+            if (templated_noise_config is None or
+                template_label in templated_noise_config['counters']):
                 # traffic counters are all single bin counters
                 bins_dict[counter_label] = {'bins': [[0.0, float("inf")]]}
 
-- 
2.43.0


From e0c1f074849a96d77d7ab40f7e56aeb65cab44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 33/48] fix: keep the delay rate when there is no positive
 tally

---
 privcount/traffic_model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 893fb04..d6db697 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -818,9 +818,13 @@ class HiddenMarkovModel(object):
                     (dp, mu, sigma, lam) = self.emit_p[state][obs]
 
                     dp_new = inertia * dp + (1.0-inertia) * e_count[state][obs]
-                    # normalize to microseconds per stream before applying inertia, and then
-                    # back to streams per microscond for lambda
-                    lam_new = 1.0 / ((inertia * (1.0/lam)) + ((1.0-inertia) * (1.0/e_lambda[state][obs])))
+                    if e_lambda[state][obs] > 0.0 and lam > 0.0:
+                        # normalize to microseconds per stream before applying inertia, and then
+                        # back to streams per microscond for lambda
+                        lam_new = 1.0 / ((inertia * (1.0/lam)) + ((1.0-inertia) * (1.0/e_lambda[state][obs])))
+                    else:
+                        # we can't update the rate without a positive delay tally
+                        lam_new = lam if lam > 0.0 else e_lambda[state][obs]
 
                     self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam_new)
 
-- 
2.43.0


From 1616fffa4e4f1e0dbd68980f644e2201b757a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 34/48] fix: update the emission probabilities of final
 observations

---
 privcount/traffic_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index d6db697..c201296 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -827,6 +827,13 @@ class HiddenMarkovModel(object):
                         lam_new = lam if lam > 0.0 else e_lambda[state][obs]
 
                     self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam_new)
+                else:
+                    # observations without delays only have an emission probability
+                    params = tuple(self.emit_p[state][obs])
+
+                    dp_new = inertia * params[0] + (1.0-inertia) * e_count[state][obs]
+
+                    self.emit_p[state][obs] = (dp_new,) + params[1:]
 
             # be extra sure our new probs sum to 1.0
             e_total = float(sum([v[0] for v in self.emit_p[state].values()]))
@@ -840,6 +847,9 @@ class HiddenMarkovModel(object):
                         (dp, mu, sigma, lam) = self.emit_p[state][obs]
                         dp_new = dp/e_total
                         self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam)
+                    else:
+                        params = tuple(self.emit_p[state][obs])
+                        self.emit_p[state][obs] = (params[0]/e_total,) + params[1:]
             else:
                 logging.warning("BUG: we have no positive emission probabilities in updated model for state {}."
                     .format(state))
-- 
2.43.0


From 584dfbf5b26af0918840ccdcd3d6760e7ad930eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 35/48] fix: leave the configured traffic model alone when
 updating it

---
 privcount/tally_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 10ec3cd..e644f90 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2155,7 +2155,8 @@ class CollectionPhase(object):
         if self.traffic_model_config is None: return None
 
         # create a TrafficModel object from the original input model config
-        tmodel = TrafficModel(self.traffic_model_config)
+        # updates happen in place, so keep the config as it was
+        tmodel = TrafficModel(deepcopy(self.traffic_model_config))
 
         # the traffic model class expects counts only, i.e, dict[label] = count
         tmodel_counts = {}
-- 
2.43.0


From f92d39143e5d5b2e7d920886666b87e9fef72bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 36/48] fix: send the first simulated event immediately

---
 privcount/inject.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index b83a934..9994475 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -35,7 +35,7 @@ class PrivCountDataInjector(ServerFactory):
         self.prune_after = prune_after
         self.protocol = None
         self.event_file = None
-        self.last_time_end = 0.0
+        self.last_time_end = None
         self.injecting = False
         self.pending_stop = False
         self.listeners = None
@@ -212,7 +212,9 @@ class PrivCountDataInjector(ServerFactory):
             # if we need to simulate event inter-arrival times
             wait_time = 0.0
             if self.do_pause:
-                wait_time = this_time_end - self.last_time_end
+                # there is nothing to wait for before the first event
+                if self.last_time_end is not None:
+                    wait_time = this_time_end - self.last_time_end
                 self.last_time_end = this_time_end
 
             # ensure wait_time is sensible
-- 
2.43.0


From 690dfea6702ee9dc6f6de18bcf97730a8427e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 37/48] fix: keep microseconds in injected event times

---
 privcount/inject.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index 9994475..2ac3a69 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -164,10 +164,13 @@ class PrivCountDataInjector(ServerFactory):
         if (self.protocol is not None and self.protocol.transport is not None
             and self.protocol.transport.connected and self.injecting):
             # update event times so the data seems fresh to privcount
+            # keep the precision that tor uses for event times
             this_time_start, this_time_end = self._get_event_times(msg)
             now = time()
             alive = this_time_end - this_time_start
-            msg_adjusted_times = self._set_event_times(msg, now-alive, now)
+            msg_adjusted_times = self._set_event_times(msg,
+                                                       "{:.6f}".format(now-alive),
+                                                       "{:.6f}".format(now))
             event = "650 {}".format(msg_adjusted_times)
             self.output_event_count += 1
             logging.info("sending event {} '{}'"
-- 
2.43.0


From a86e7042e35a7cd82bb44bd4d48bb82be3429e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 38/48] fix: ignore blank lines in injected event logs

---
 privcount/inject.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/inject.py b/privcount/inject.py
index 2ac3a69..aff4e20 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -200,6 +200,10 @@ class PrivCountDataInjector(ServerFactory):
                 return
 
             msg = line.strip()
+            # ignore blank lines
+            if len(msg) == 0:
+                continue
+
             this_time_start, this_time_end = self._get_event_times(msg)
 
             # make sure this event is in our 'valid' event window
-- 
2.43.0


From d13dee3a64edf3a055f7c0aee6db46fdad20790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 39/48] fix: inject each event once when the event subscription
 is repeated

---
 privcount/inject.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/inject.py b/privcount/inject.py
index aff4e20..9793ab0 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -84,6 +84,9 @@ class PrivCountDataInjector(ServerFactory):
         return self.control_cookie_file
 
     def start_injecting(self):
+        if self.injecting or self.pending_stop:
+            logging.debug("Ignoring request to start injecting when events have already been injected")
+            return
         self.injecting = True
         if self.listeners is not None:
             logging.info("Injector has connected: no longer listening for new connections")
-- 
2.43.0


From 6d4e03b3006f1a4ce308ece1fb5d4cc8600e483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 40/48] fix: close the injector connection after the last event

---
 privcount/inject.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index 9793ab0..04ff90b 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -108,8 +108,6 @@ class PrivCountDataInjector(ServerFactory):
         Depending on the protocol, closing the connection can erase all unread
         data. So we stop sending events, but delay the actual close for a
         short amount of time.
-        This function sometimes reschedules itself using deferLater: any
-        exceptions will be handled by errorCallback.
         '''
         if not self.injecting:
             logging.debug("Ignoring request to stop injecting when injection is not in progress")
@@ -127,9 +125,15 @@ class PrivCountDataInjector(ServerFactory):
             # the data collector to finish reading.
             # we don't care about cancelling here, we're stopping anyway
             stop_deferred = task.deferLater(reactor, 1.0,
-                                            self.stop_injecting)
+                                            self._stop_later)
             stop_deferred.addErrback(errorCallback)
-            return
+
+    def _stop_later(self):
+        '''
+        Close all connections, and stop the injector.
+        This function is called using deferLater, so any exceptions will be
+        handled by errorCallback.
+        '''
         if self.listeners is not None:
             stopListening(self.listeners)
             self.listeners = None
@@ -149,7 +153,8 @@ class PrivCountDataInjector(ServerFactory):
         if self.protocol is not None and self.protocol.transport is not None:
             self.protocol.transport.loseConnection()
         # stop the reactor gracefully
-        stop_reactor()
+        # (exiting here would look like a failure of the deferred call)
+        stop_reactor(None)
 
     def _get_line(self):
         if self.event_file == None:
-- 
2.43.0


From 3728f8276ae9185ce2cc0ec144eb87a5b9ea15c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 41/48] fix: reply to subscriptions to unknown events

---
 privcount/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index f43e2c7..996a9ba 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2488,7 +2488,7 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                     # this line displays the event name uppercased
                     # that's a minor, irrelevant protocol difference
                     self.sendLine('552 Unrecognized event "{}"'
-                                  .format(unknown_events[0]))
+                                  .format(sorted(unknown_events)[0]))
                     self.factory.stop_injecting()
             elif parts[0] == "GETINFO":
                 # the correct response to an empty GETINFO is an empty OK
-- 
2.43.0


From 0f6a8b057632f3598c657a57e2e7fea39110def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 42/48] fix: refuse badly padded base64 in handshakes instead
 of exiting

---
 privcount/protocol.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 996a9ba..c5d1df0 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -377,14 +377,19 @@ class PrivCountProtocol(LineOnlyReceiver):
         If b64_cookie matches the expected format for a base-64 encoded
         privcount cookie, return the decoded cookie.
         Otherwise, return False.
-        Raises an exception if the cookie is not correctly padded base64.
         '''
         if len(b64_cookie) != PrivCountProtocol.COOKIE_B64_BYTES:
             logging.warning("Invalid cookie: wrong encoded length {} expected {}"
                             .format(len(b64_cookie),
                                     PrivCountProtocol.COOKIE_B64_BYTES))
             return False
-        cookie = b64decode(b64_cookie)
+        try:
+            cookie = b64decode(b64_cookie)
+        except TypeError as e:
+            # peers that have not authenticated can send us anything
+            logging.warning("Invalid cookie: not correctly padded base64: {}"
+                            .format(e))
+            return False
         if len(cookie) != PrivCountProtocol.COOKIE_BYTES:
             logging.warning("Invalid cookie: wrong decoded length {} expected {}"
                             .format(len(cookie),
@@ -434,7 +439,6 @@ class PrivCountProtocol(LineOnlyReceiver):
         If secret matches the expected format for a base-64 encoded
         privcount secret handshake key, return the decoded secret.
         Otherwise, return False.
-        Raises an exception if the secret is not correctly padded base64.
         '''
         # The secret and cookie are the same size and encoding, this just works
         assert (PrivCountProtocol.COOKIE_B64_BYTES ==
@@ -481,7 +485,6 @@ class PrivCountProtocol(LineOnlyReceiver):
         If b64_hmac matches the expected format for a base-64 encoded
         privcount HMAC, return the decoded HMAC.
         Otherwise, return False.
-        Raises an exception if the hmac is not correctly padded base64.
         '''
         # The HMAC and cookie are the same size and encoding, this just works
         assert (PrivCountProtocol.COOKIE_B64_BYTES ==
@@ -497,7 +500,6 @@ class PrivCountProtocol(LineOnlyReceiver):
         privcount HMAC, and the HMAC matches the expected HMAC for
         handshake_key, prefix, and the cookies, return True.
         Otherwise, return False.
-        Raises an exception if the HMAC is not correctly padded base64.
         '''
         hmac = PrivCountProtocol.handshake_hmac_decode(b64_hmac)
         if not hmac:
@@ -532,8 +534,6 @@ class PrivCountProtocol(LineOnlyReceiver):
         If handshake matches the expected format for HANDSHAKE1,
         return the server cookie.
         Otherwise, return False.
-        Raises an exception if the server cookie is not correctly padded
-        base64.
         '''
         if not PrivCountProtocol.handshake_prefix_verify(
                                      handshake,
@@ -579,8 +579,6 @@ class PrivCountProtocol(LineOnlyReceiver):
         and the client cookie does not match the server cookie,
         return the client cookie.
         Otherwise, return False.
-        Raises an exception if the client cookie or the HMAC are not
-        correctly padded base64.
         '''
         if not PrivCountProtocol.handshake_prefix_verify(
                                      handshake,
@@ -649,7 +647,6 @@ class PrivCountProtocol(LineOnlyReceiver):
         If handshake matches the expected format for HANDSHAKE3,
         and the HMAC verifies, return True.
         Otherwise, return False.
-        Raises an exception if the HMAC is not correctly padded base64.
         '''
         if not PrivCountProtocol.handshake_prefix_verify(
                                      handshake,
-- 
2.43.0


From 2975546f96e06d43f3f67ea20bce8aedfcbf98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 43/48] fix: refuse a HANDSHAKE3 that comes before HANDSHAKE1

---
 privcount/protocol.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index c5d1df0..b5db95b 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1071,10 +1071,13 @@ class PrivCountClientProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE2))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE3:
-            if self.handshake3_verify(event_line,
-                                      self.handshake_secret(),
-                                      self.server_cookie,
-                                      self.client_cookie):
+            # there are no cookies to verify until we have received HANDSHAKE1
+            if (self.server_cookie is not None and
+                self.client_cookie is not None and
+                self.handshake3_verify(event_line,
+                                       self.handshake_secret(),
+                                       self.server_cookie,
+                                       self.client_cookie)):
                 self.sendLine(self.handshake4_str())
                 self.handshake_succeeded()
             else:
-- 
2.43.0


From 5518ea9151dc963243b57c0b001ecca3024b4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 44/48] fix: replace a dangling temporary link to the latest
 traffic model

---
 privcount/tally_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index e644f90..ea6e236 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2272,7 +2272,7 @@ class CollectionPhase(object):
                     tmplinkname = ".privcount.traffic.model.json.tmp"
                     linkname = "traffic.model.latest.json"
 
-                    if os.path.exists(tmplinkname):
+                    if os.path.lexists(tmplinkname):
                         os.remove(tmplinkname)
 
                     os.symlink(new_model_path, tmplinkname)
-- 
2.43.0


From c83459b503b756bff41820f2f8df892bd919b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:47 +0000
Subject: [PATCH 45/48] fix: give up a control connection attempt that starts
 after the round

---
 privcount/data_collector.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 83d4615..c25a3e9 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -592,6 +592,15 @@ class Aggregator(ReconnectingClientFactory):
         # TODO
         return
 
+    def startedConnecting(self, connector):
+        '''
+        Overrides twisted function.
+        stopTrying only cancels the latest delayed reconnection. If there are
+        multiple connectors, the others find out that we have stopped here.
+        '''
+        if not self.continueTrying:
+            connector.stopConnecting()
+
     def start(self):
         '''
         start the aggregator, and connect to the control port
-- 
2.43.0


From 3ae7ca8f990f2088d81c698d41b971b2af6d7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 46/48] fix: create keys, certificates and secrets whole

---
 privcount/crypto.py   | 20 ++++++++++++++++----
 privcount/protocol.py |  5 ++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/privcount/crypto.py b/privcount/crypto.py
index e897b65..0f6c08b 100644
--- a/privcount/crypto.py
+++ b/privcount/crypto.py
@@ -7,6 +7,7 @@ See LICENSE for licensing information
 '''
 
 import logging
+import os
 import datetime
 import uuid
 import json
@@ -288,11 +289,22 @@ def decrypt(priv_key, ciphertext):
     encoded_string = decrypt_symmetric(secret_key, sym_encrypted_data)
     return decode_data(encoded_string)
 
+def write_new_file(out_path, contents):
+    '''
+    Create the file out_path with contents. If we stop part way through, there
+    is nothing at out_path (the next run would use what is there as it is).
+    '''
+    temp_path = out_path + '.tmp'
+    with open(temp_path, 'wb') as outf:
+        outf.write(contents)
+        outf.flush()
+        os.fsync(outf.fileno())
+    os.rename(temp_path, out_path)
+
 def generate_keypair(key_out_path):
     private_key = rsa.generate_private_key(public_exponent=65537, key_size=4096, backend=default_backend())
     pem = private_key.private_bytes(encoding=serialization.Encoding.PEM, format=serialization.PrivateFormat.PKCS8, encryption_algorithm=serialization.NoEncryption())
-    with open(key_out_path, 'wb') as outf:
-        print >>outf, pem
+    write_new_file(key_out_path, pem)
 
 def generate_cert(key_path, cert_out_path):
     private_key = load_private_key_file(key_path)
@@ -315,5 +327,5 @@ def generate_cert(key_path, cert_out_path):
 
     certificate = builder.sign(private_key=private_key, algorithm=hashes.SHA256(), backend=default_backend())
 
-    with open(cert_out_path, 'wb') as outf:
-        print >>outf, certificate.public_bytes(encoding=serialization.Encoding.PEM)
+    write_new_file(cert_out_path,
+                   certificate.public_bytes(encoding=serialization.Encoding.PEM))
diff --git a/privcount/protocol.py b/privcount/protocol.py
index b5db95b..e9efd70 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -14,7 +14,7 @@ from cryptography.hazmat.primitives.hashes import SHA256
 
 from privcount.connection import transport_info, transport_remote_info, transport_local_info
 from privcount.counter import get_events_for_counters, get_valid_events
-from privcount.crypto import CryptoHash, get_hmac, verify_hmac, b64_padded_length, json_serialise
+from privcount.crypto import CryptoHash, get_hmac, verify_hmac, b64_padded_length, json_serialise, write_new_file
 from privcount.log import log_error, errorCallback, stop_reactor, summarise_string, summarise_list
 
 PRIVCOUNT_SHORT_VERSION_STRING = '3.1.0'
@@ -422,8 +422,7 @@ class PrivCountProtocol(LineOnlyReceiver):
         # it is used to generate or verify the HMACs)
         if not path.exists(secret_handshake_path):
             secret_handshake = PrivCountProtocol.handshake_secret_generate()
-            with open(secret_handshake_path, 'w') as fin:
-                fin.write(secret_handshake)
+            write_new_file(secret_handshake_path, secret_handshake)
         # read from the file (even if we just generated it)
         with open(secret_handshake_path, 'r') as fin:
             # read the whole file, but ignore whitespace
-- 
2.43.0


From a17755091ee5f9609d9ba3a74b130c3137ca9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 47/48] fix: remove a certificate of another key before making
 a new key

---
 privcount/tally_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index ea6e236..e00d083 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -576,6 +576,10 @@ class TallyServer(ServerFactory, PrivCountServer):
             # generate a new key and cert if either file does not exist
             if (not os.path.exists(ts_conf['key']) or
                 not os.path.exists(ts_conf['cert'])):
+                # if we stop after generating the key, a cert for another key
+                # must not be there
+                if os.path.exists(ts_conf['cert']):
+                    os.remove(ts_conf['cert'])
                 generate_keypair(ts_conf['key'])
                 generate_cert(ts_conf['key'], ts_conf['cert'])
 
-- 
2.43.0


From 41b9d2e6c061d1408338fc4828cb73aeb3f7b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 48/48] fix: create a handshake secret only when asked to

---
 privcount/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index e9efd70..112b431 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -420,7 +420,7 @@ class PrivCountProtocol(LineOnlyReceiver):
         # violation, but it yields better security properties, as only the
         # protocol layer ever knows the secret key (and it is discarded after
         # it is used to generate or verify the HMACs)
-        if not path.exists(secret_handshake_path):
+        if create and not path.exists(secret_handshake_path):
             secret_handshake = PrivCountProtocol.handshake_secret_generate()
             write_new_file(secret_handshake_path, secret_handshake)
         # read from the file (even if we just generated it)
-- 
2.43.0

