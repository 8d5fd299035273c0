From 6e20d5d71706331f32844253c342102c0d7fd403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:53 +0000
Subject: [PATCH 01/63] fix: keep GOP markers when signature verification
 errors, so a tampered GOP is not reported OK

If EVP_PKEY_verify() returned an error (e.g. a malformed DER signature) the used_in_gop_hash
markers were removed before statistics were collected, so zero invalid NAL Units were counted
and the GOP was reported as OK.
---
 lib/src/signed_video_h26x_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index b4c74f5..99127aa 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -513,8 +513,8 @@ verify_hashes_with_sei(signed_video_t *self, int *num_expected_nalus, int *num_r
     // An error occurred when verifying the GOP hash. Verify without a SEI.
     validation_status = 'E';
     sei->validation_status = validation_status;
-    // Remove |used_in_gop_hash| from marked NALUs.
-    remove_used_in_gop_hash(self->nalu_list);
+    // Keep the |used_in_gop_hash| markers, since the statistics, and thereby the validation result,
+    // are collected from the marked NALUs.
     return verify_hashes_without_sei(self);
   }
 
-- 
2.43.0


From 11b9efb09b351832bdac160da648cfcc8722997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:15 +0000
Subject: [PATCH 02/63] fix: a GOP with all NAL Units lost, but the SEI
 received, is not OK without a hash list

h26x_nalu_list_add_missing() needs an item to add missing NAL Units to, hence with GOP level
authenticity nothing was counted as missing and the lost GOP was reported as OK.
---
 lib/src/signed_video_h26x_auth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 99127aa..3c6441a 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -660,6 +660,11 @@ validate_authenticity(signed_video_t *self)
         (num_missed_nalus >= num_expected_nalus)) {
       valid = SV_AUTH_RESULT_NOT_OK;
     }
+    // Without a hash list there is no item to add the missing NAL Units to if all of them are lost.
+    if ((valid == SV_AUTH_RESULT_OK) && (num_expected_nalus > 0) && (num_received_nalus == 0) &&
+        (num_missed_nalus == 0)) {
+      valid = SV_AUTH_RESULT_NOT_OK;
+    }
     self->gop_info->global_gop_counter_is_synced = true;
   }
   // Determine if this GOP is valid, but has missing information. This happens if we have detected
-- 
2.43.0


From 8a6dc2125a6c31c0fd197670c821b4e532884b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:33 +0000
Subject: [PATCH 03/63] fix: a SEI that fails verification is not OK even
 without NAL Units in its GOP

---
 lib/src/signed_video_h26x_auth.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 3c6441a..c9f569f 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -627,6 +627,7 @@ validate_authenticity(signed_video_t *self)
   int num_invalid_nalus = -1;
   int num_missed_nalus = -1;
   bool verify_success = false;
+  bool sei_is_authentic = true;
 
   if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost) {
     DEBUG_LOG("We never received the SEI associated with this GOP");
@@ -635,6 +636,7 @@ validate_authenticity(signed_video_t *self)
     verify_success = verify_hashes_without_sei(self);
   } else {
     verify_success = verify_hashes_with_sei(self, &num_expected_nalus, &num_received_nalus);
+    sei_is_authentic = (self->gop_info->verified_signature_hash == 1);
     // Set |latest_validated_gop| to recived gop counter for the next validation.
     self->gop_info->latest_validated_gop = self->gop_info->global_gop_counter;
   }
@@ -647,7 +649,8 @@ validate_authenticity(signed_video_t *self)
   DEBUG_LOG("Number of missed NALUs = %d.", num_missed_nalus);
   remove_used_in_gop_hash(self->nalu_list);
 
-  valid = (num_invalid_nalus > 0) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
+  // A SEI that could not be verified is never OK, even if there are no other NAL Units to invalidate.
+  valid = (num_invalid_nalus > 0 || !sei_is_authentic) ? SV_AUTH_RESULT_NOT_OK : SV_AUTH_RESULT_OK;
 
   // Post-validation actions.
 
-- 
2.43.0


From 8efa5f348406c4f1ba7a3403e7f2026e55d2661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:38 +0000
Subject: [PATCH 04/63] fix: do not validate with the hash list of a previous
 SEI

A SEI without a hash list (GOP level, or fallback due to size) left the hash list decoded from
an earlier SEI in place, so replayed NAL Units of that earlier GOP could be validated as OK.
---
 lib/src/signed_video_h26x_auth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index c9f569f..70c0f8f 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -82,6 +82,8 @@ decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_siz
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
+    // The hash list is optional. Make sure that one from a previous SEI is not used.
+    self->gop_info->list_idx = 0;
     SV_THROW_WITH_MSG(tlv_decode(self, payload, payload_size), "Failed decoding SEI payload");
     detect_lost_sei(self);
     // Every SEI is associated with a GOP. If a lost SEI has been detected, and no GOP end has been
-- 
2.43.0


From 4562cd3ec21610c756f4cdf83e3d0d7c212635ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:38 +0000
Subject: [PATCH 05/63] fix: report SV_AUTH_RESULT_VERSION_MISMATCH for videos
 signed with a newer version

The version of the local authenticity report was never set, so the comparison with the version
on the signing side always failed and the mismatch was never reported.
---
 lib/src/legacy/legacy_h26x_auth.c   | 6 ++++--
 lib/src/signed_video_authenticity.c | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index bc21e70..007e639 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1093,8 +1093,10 @@ legacy_update_authenticity_report(legacy_sv_t *self)
   DEBUG_LOG("Legacy Validation statuses           = %s", validation_str);
 
   // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
-  // authenticity result may not be reliable, hence change status.
-  if (signed_video_compare_versions(
+  // authenticity result may not be reliable, hence change status. A NOT OK is kept, since then the
+  // version itself, being part of the SEI, may have been tampered with.
+  if (self->authenticity->latest_validation.authenticity > SV_AUTH_RESULT_NOT_OK &&
+      signed_video_compare_versions(
           self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
     self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
   }
diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 6064c86..590976c 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -213,6 +213,9 @@ authenticity_report_init(signed_video_authenticity_t *authenticity_report)
   assert(!authenticity_report->this_version);
   authenticity_report->version_on_signing_side = calloc(1, SV_VERSION_MAX_STRLEN);
   authenticity_report->this_version = calloc(1, SV_VERSION_MAX_STRLEN);
+  if (authenticity_report->this_version) {
+    strcpy(authenticity_report->this_version, SIGNED_VIDEO_VERSION);
+  }
 
   latest_validation_init(&authenticity_report->latest_validation);
   accumulated_validation_init(&authenticity_report->accumulated_validation);
@@ -269,8 +272,10 @@ update_authenticity_report(signed_video_t *self)
   DEBUG_LOG("Validation statuses           = %s", validation_str);
 
   // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
-  // authenticity result may not be reliable, hence change status.
-  if (signed_video_compare_versions(
+  // authenticity result may not be reliable, hence change status. A NOT OK is kept, since then the
+  // version itself, being part of the SEI, may have been tampered with.
+  if (self->authenticity->latest_validation.authenticity > SV_AUTH_RESULT_NOT_OK &&
+      signed_video_compare_versions(
           self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
     self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
   }
-- 
2.43.0


From de350699dbee90ae033aa3cb6e9d93cb28f38717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:06 +0000
Subject: [PATCH 06/63] fix: do not index tlv_tuples with a vendor tag

tlv_find_and_decode_optional_tags() read outside tlv_tuples when a SEI included a vendor tag.
---
 lib/src/signed_video_tlv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a0945cf..119133a 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1263,7 +1263,7 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
       break;
     }
     tlv_data_ptr += tlv_header_size;
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From f78bbbfe44c279d3a8968303536d808eb5041ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:25 +0000
Subject: [PATCH 07/63] fix: reject TLVs that are undefined or exceed the SEI
 payload

A crafted SEI could make the decoders read and write outside their buffers, or call a NULL
decoder.
---
 lib/src/signed_video_tlv.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 119133a..4a65ca4 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -348,7 +348,9 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
       }
     }
     if (version >= 3) {
+      SV_THROW_IF(data_ptr > data + data_size, SV_AUTHENTICATION_ERROR);
       hash_size = (data_size - (data_ptr - data)) / 2;
+      SV_THROW_IF(hash_size > MAX_HASH_SIZE, SV_AUTHENTICATION_ERROR);
       // Decode linked hash data.
       memcpy(self->received_linked_hash, data_ptr, hash_size);
       data_ptr += hash_size;
@@ -1160,7 +1162,7 @@ decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *ta
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   sv_tlv_tuple_t tlv = get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
@@ -1195,6 +1197,11 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
       break;
     }
     data_ptr += tlv_header_size;
+    if (data_ptr > data + data_size || length > (size_t)(data + data_size - data_ptr)) {
+      DEBUG_LOG("TLV exceeds the available data");
+      status = SV_AUTHENTICATION_ERROR;
+      break;
+    }
 
     sv_tlv_decoder_t decoder = get_decoder(tag);
     status = decoder(self, data_ptr, length);
@@ -1263,6 +1270,11 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
       break;
     }
     tlv_data_ptr += tlv_header_size;
+    if (tlv_data_ptr > tlv_data + tlv_data_size ||
+        length > (size_t)(tlv_data + tlv_data_size - tlv_data_ptr)) {
+      DEBUG_LOG("TLV exceeds the available data");
+      break;
+    }
     if (!get_tlv_tuple(this_tag).is_always_present) {
       sv_tlv_decoder_t decoder = get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
-- 
2.43.0


From 13b414a0699138647cd399e82adb4737e40493a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:30 +0000
Subject: [PATCH 08/63] fix: reject unknown hash algorithms when decoding a SEI

An OID that is not a supported message digest resulted in an invalid hash size.
---
 lib/src/signed_video_openssl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 90d83ec..e3cc6b5 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -401,7 +401,9 @@ oid_to_type(message_digest_t *self)
     encoded_oid_ptr = self->encoded_oid;
     SV_THROW_IF(
         !d2i_ASN1_OBJECT(&obj, &encoded_oid_ptr, self->encoded_oid_size), SV_EXTERNAL_ERROR);
-    self->type = EVP_get_digestbyobj(obj);
+    const EVP_MD *type = EVP_get_digestbyobj(obj);
+    SV_THROW_IF(!type, SV_EXTERNAL_ERROR);
+    self->type = type;
     self->size = EVP_MD_size(self->type);
   SV_CATCH()
   SV_DONE(status)
-- 
2.43.0


From 1e75b503d3fe5db8c5c0ade3cd121fe42e585b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:06 +0000
Subject: [PATCH 09/63] fix: NULL pointer dereference when verifying without a
 SEI and NAL Units are missing

A missing NAL Unit item has no nalu. If the first validation left such an item behind a pending
one, a later SEI with an unverifiable signature crashed the validation.
---
 lib/src/signed_video_h26x_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 70c0f8f..4176997 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -579,7 +579,8 @@ verify_hashes_without_sei(signed_video_t *self)
     num_marked_items++;
 
     item = item->next;
-    if (item) {
+    // Note that a missing NAL Unit ('M') has no |nalu|.
+    if (item && item->nalu) {
       found_next_gop = item->nalu->is_first_nalu_in_gop && !item->used_for_linked_hash;
     }
   }
-- 
2.43.0


From 314d7613b5196783caa12cc4d24821bcf2762b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:23 +0000
Subject: [PATCH 10/63] fix: finalize the GOP hash before generating the SEI at
 end of stream

The SEI generated with signed_video_set_end_of_stream() included the GOP hash of the previous
GOP, so with GOP level authenticity the untampered last GOP was validated as NOT OK.
---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 50d9ffc..29ebbf0 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -728,6 +728,10 @@ signed_video_set_end_of_stream(signed_video_t *self)
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     SV_THROW(prepare_for_nalus_to_prepend(self));
+    // Finalize the |computed_gop_hash| if hashes have been added since the latest SEI.
+    if (self->gop_info->list_idx != 0) {
+      SV_THROW(openssl_finalize_hash(self->crypto_handle, self->gop_info->computed_gop_hash, true));
+    }
     SV_THROW(generate_sei_nalu(self, &payload, &payload_signature_ptr));
     add_payload_to_buffer(self, payload, payload_signature_ptr);
     // Fetch the signature. If it is not ready we exit without generating the SEI.
-- 
2.43.0


From b17af1263285cdb45b5889f3831bcd5ae802b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:35 +0000
Subject: [PATCH 11/63] fix: drop the SEI when its signing failed, to not pair
 it with the next signature

When the threaded plugin failed signing a hash the output was consumed, but the SEI was kept.
All following SEIs were then completed with the signature of the next one.
---
 lib/plugins/threaded-signing/plugin.c |  5 +++--
 lib/src/signed_video_h26x_sign.c      | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index c37600b..1b68b2b 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -320,9 +320,10 @@ get_signature(threaded_data_t *self,
     // Copy the oldest signature
     memcpy(signature, self->out[0].signature, self->out[0].size);
     *written_signature_size = self->out[0].size;
-    // Mark as copied.
-    has_copied_signature = true;
   }
+  // The oldest output is consumed, also if there is no signature to copy. The user has to be notified
+  // to not pair the next signature with the wrong hash.
+  has_copied_signature = true;
   // Move buffer
   signature_data_t tmp = self->out[0];
   reset_signature_buffer(&tmp);
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 29ebbf0..613e82e 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -125,6 +125,7 @@ complete_sei_nalu_and_add_to_prepend(signed_video_t *self)
   // GOP.
   if (self->sign_data->signature_size == 0) {
     signed_video_nalu_data_free(payload);
+    shift_sei_buffer_at_index(self, self->num_of_completed_seis);
     status = SV_OK;
     goto done;
   } else if (!payload) {
@@ -567,6 +568,11 @@ get_signature_complete_sei_and_add_to_prepend(signed_video_t *self)
     sign_or_verify_data_t *sign_data = self->sign_data;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
+      if (signature_error != SV_OK) {
+        // There is no signature for the oldest pending SEI. Remove it to keep the order of the rest.
+        sign_data->signature_size = 0;
+        complete_sei_nalu_and_add_to_prepend(self);
+      }
       SV_THROW(signature_error);
 #ifdef SIGNED_VIDEO_DEBUG
       // TODO: This might not work for blocked signatures, that is if the hash in
@@ -739,6 +745,11 @@ signed_video_set_end_of_stream(signed_video_t *self)
     SignedVideoReturnCode signature_error = SV_UNKNOWN_FAILURE;
     while (sv_signing_plugin_get_signature(self->plugin_handle, sign_data->signature,
         sign_data->max_signature_size, &sign_data->signature_size, &signature_error)) {
+      if (signature_error != SV_OK) {
+        // There is no signature for the oldest pending SEI. Remove it to keep the order of the rest.
+        sign_data->signature_size = 0;
+        complete_sei_nalu_and_add_to_prepend(self);
+      }
       SV_THROW(signature_error);
       SV_THROW(complete_sei_nalu_and_add_to_prepend(self));
     }
-- 
2.43.0


From 7602663560d93b89bcdcff159d692d8860716ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:39 +0000
Subject: [PATCH 12/63] fix: reject hashes of different sizes for the same
 signing thread

Sessions with different hash algorithms sharing the central thread overflowed the hash memory.
---
 lib/plugins/threaded-signing/plugin.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 1b68b2b..68b8124 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -245,6 +245,11 @@ sign_hash(threaded_data_t *self, unsigned id, const uint8_t *hash, size_t hash_s
     }
     self->sign_data->hash_size = hash_size;
   }
+  // All sessions sharing a thread, hence |sign_data|, have to use the same |hash_size|.
+  if (self->sign_data->hash_size != hash_size) {
+    status = SV_NOT_SUPPORTED;
+    goto done;
+  }
 
   if (!self->in[idx].hash) {
     self->in[idx].hash = calloc(1, hash_size);
-- 
2.43.0


From 3ca32ba76d5dcfb4d74f3caf25b978e2af0e946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:28 +0000
Subject: [PATCH 13/63] fix: do not read outside a NAL Unit with zeros only

---
 lib/src/signed_video_h26x_common.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index a68dad2..e43e09b 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -641,7 +641,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
-- 
2.43.0


From 4d5904dfafab03cc55785971a24136d676c3e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:59 +0000
Subject: [PATCH 14/63] fix: exclude trailing zeros also if they span over
 several NAL Unit parts

Trailing zeros are not part of the hash when a NAL Unit is validated. If they were added for
signing in more than one part some were hashed, or data outside the part was read.
---
 lib/src/signed_video_h26x_common.c |  2 ++
 lib/src/signed_video_h26x_sign.c   | 22 ++++++++++++++++++----
 lib/src/signed_video_internal.h    |  1 +
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index e43e09b..2824f4e 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -920,6 +920,8 @@ update_hash(signed_video_t *self,
   const uint8_t *hashable_data = nalu->hashable_data;
   size_t hashable_data_size = nalu->hashable_data_size;
 
+  // A part of a NALU may be without data to hash.
+  if (hashable_data_size == 0) return SV_OK;
   return openssl_update_hash(self->crypto_handle, hashable_data, hashable_data_size, false);
 }
 
diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 613e82e..364a817 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -490,6 +490,7 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     // Only check for trailing zeros if this is the last part.
     nalu = parse_nalu_info(nalu_data, nalu_data_size, self->codec, is_last_part, false);
     nalu.is_last_nalu_part = is_last_part;
+    self->num_pending_zeros = 0;
     copy_nalu_except_pointers(self->last_nalu, &nalu);
   } else {
     self->last_nalu->is_first_nalu_part = false;
@@ -497,12 +498,25 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     copy_nalu_except_pointers(&nalu, self->last_nalu);
     nalu.nalu_data = nalu_data;
     nalu.hashable_data = nalu_data;
-    // Remove any trailing 0x00 bytes at the end of a NALU.
-    while (is_last_part && (nalu_data[nalu_data_size - 1] == 0x00)) {
-      nalu_data_size--;
-    }
     nalu.hashable_data_size = nalu_data_size;
   }
+  if (!(nalu.is_first_nalu_part && is_last_part)) {
+    // Remove any trailing 0x00 bytes at the end of a NALU. These may span over several parts, hence
+    // the ones ending this part are not hashed until there is more data.
+    size_t num_zeros = 0;
+    while (nalu.hashable_data_size > 0 &&
+        (nalu.hashable_data[nalu.hashable_data_size - 1] == 0x00)) {
+      nalu.hashable_data_size--;
+      num_zeros++;
+    }
+    if (nalu.is_hashable && nalu.hashable_data_size > 0) {
+      const uint8_t zero = 0x00;
+      for (; self->num_pending_zeros > 0; self->num_pending_zeros--) {
+        openssl_update_hash(self->crypto_handle, &zero, 1, false);
+      }
+    }
+    self->num_pending_zeros += num_zeros;
+  }
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
diff --git a/lib/src/signed_video_internal.h b/lib/src/signed_video_internal.h
index 6531f19..a8937cc 100644
--- a/lib/src/signed_video_internal.h
+++ b/lib/src/signed_video_internal.h
@@ -170,6 +170,7 @@ struct _signed_video_t {
   int frame_count;
 
   h26x_nalu_t *last_nalu;  // Track last parsed h26x_nalu_t to pass on to next part
+  size_t num_pending_zeros;  // Zeros ending the latest part, to hash only if they are not trailing
 
   uint8_t received_linked_hash[MAX_HASH_SIZE];  // Stores linked hash data for liked hash method.
   // Members associated with SEI writing
-- 
2.43.0


From d426dbf68718e209785ab35be7c70a4076776e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 15/63] fix: do not register a NAL Unit part that was rejected

If a part is rejected, since there are SEIs to fetch, the user adds it again. That part was then
handled as a continuation of itself and the NAL Unit got an incorrect hash.
---
 lib/src/signed_video_h26x_sign.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 364a817..2ac5460 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -482,6 +482,9 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     DEBUG_LOG("Invalid input parameters: (%p, %p, %zu)", self, nalu_data, nalu_data_size);
     return SV_INVALID_PARAMETER;
   }
+  // Do not register the part if it cannot be added, so that the user can add it again.
+  svrc_t prepare_status = prepare_for_nalus_to_prepend(self);
+  if (prepare_status != SV_OK) return prepare_status;
 
   h26x_nalu_t nalu = {0};
   gop_info_t *gop_info = self->gop_info;
@@ -520,8 +523,6 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-    SV_THROW(prepare_for_nalus_to_prepend(self));
-
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
-- 
2.43.0


From 0405f995dd0253f5aa189cc880f2052121391574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:11 +0000
Subject: [PATCH 16/63] fix: use the hash algorithm of the SEI also if the
 public key is known in advance

---
 lib/src/signed_video_h26x_auth.c | 11 +++++++++++
 lib/src/signed_video_openssl.c   |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 4176997..099b832 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1164,6 +1164,17 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Units.
     if (!self->validation_flags.hash_algo_known && self->validation_flags.signing_present &&
         is_recurrent_data_decoded(self)) {
+      if (!self->validation_flags.hash_algo_known) {
+        // If the public key was set by the user, or is kept through a reset, no recurrent data has
+        // been decoded. The hash algorithm is still given by the SEI.
+        const uint8_t *crypto_info =
+            tlv_find_tag(nalu.tlv_data, nalu.tlv_size, CRYPTO_INFO_TAG, false);
+        const uint8_t *tlv_end = nalu.tlv_data + nalu.tlv_size;
+        if (crypto_info && (tlv_end - crypto_info > 2) &&
+            (tlv_end - crypto_info - 2 >= crypto_info[1])) {
+          SV_THROW(tlv_decode(self, crypto_info, (size_t)crypto_info[1] + 2));
+        }
+      }
       if (!self->validation_flags.hash_algo_known) {
         DEBUG_LOG("No cryptographic information found in SEI. Using default hash algo");
         self->validation_flags.hash_algo_known = true;
diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index e3cc6b5..93f4213 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -500,6 +500,12 @@ openssl_set_hash_algo_by_encoded_oid(void *handle,
     self->hash_algo.encoded_oid_size = encoded_oid_size;
 
     SV_THROW(oid_to_type(&self->hash_algo));
+    // Free the context to be able to assign a new message digest type to it.
+    EVP_MD_CTX_free(self->primary_ctx);
+    self->primary_ctx = NULL;
+    EVP_MD_CTX_free(self->secondary_ctx);
+    self->secondary_ctx = NULL;
+    SV_THROW(openssl_init_hash(self, false));
   SV_CATCH()
   SV_DONE(status)
 
-- 
2.43.0


From dc781b458b0d0c1905cb8a6b6c397b3fa5ae2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:36 +0000
Subject: [PATCH 17/63] fix: keep the signing session intact when a new private
 key is rejected

---
 lib/src/signed_video_openssl.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_openssl.c b/lib/src/signed_video_openssl.c
index 93f4213..00334fc 100644
--- a/lib/src/signed_video_openssl.c
+++ b/lib/src/signed_video_openssl.c
@@ -102,6 +102,7 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
 
   EVP_PKEY_CTX *ctx = NULL;
   EVP_PKEY *signing_key = NULL;
+  uint8_t *signature = NULL;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -114,8 +115,8 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
     // Read the maximum size of the signature that the |private_key| can generate
     size_t max_signature_size = EVP_PKEY_size(signing_key);
     SV_THROW_IF(max_signature_size == 0, SV_EXTERNAL_ERROR);
-    sign_data->signature = malloc(max_signature_size);
-    SV_THROW_IF(!sign_data->signature, SV_MEMORY);
+    signature = malloc(max_signature_size);
+    SV_THROW_IF(!signature, SV_MEMORY);
     // Create a context from the |signing_key|
     ctx = EVP_PKEY_CTX_new(signing_key, NULL /* no engine */);
     SV_THROW_IF(!ctx, SV_EXTERNAL_ERROR);
@@ -128,13 +129,15 @@ openssl_private_key_malloc(sign_or_verify_data_t *sign_data,
       SV_THROW_IF(EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256()) <= 0, SV_EXTERNAL_ERROR);
     }
 
-    // Set the content in |sign_data|
+    // Set the content in |sign_data|. Note that it is left untouched if the |private_key| is rejected.
+    free(sign_data->signature);
+    sign_data->signature = signature;
     sign_data->max_signature_size = max_signature_size;
     sign_data->key = ctx;
   SV_CATCH()
   {
-    free(sign_data->signature);
-    sign_data->signature = NULL;
+    free(signature);
+    signature = NULL;
     EVP_PKEY_CTX_free(ctx);
     ctx = NULL;
   }
-- 
2.43.0


From 1eb80a7caa72840cddecedd809e89d86db6508b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:30 +0000
Subject: [PATCH 18/63] fix: always make progress when a SEI with a future GOP
 counter is the oldest pending NAL Unit

---
 lib/src/signed_video_h26x_auth.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 099b832..a1fb0fe 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -592,6 +592,18 @@ verify_hashes_without_sei(signed_video_t *self)
   return found_next_gop;
 }
 
+/* Checks if there are any pending NALUs prior to the next pending SEI. */
+static bool
+has_pending_nalus_before_sei(const h26x_nalu_list_t *nalu_list)
+{
+  const h26x_nalu_list_item_t *item = nalu_list->first_item;
+  while (item && item->validation_status != 'P') {
+    item = item->next;
+  }
+
+  return item && !item->nalu->is_gop_sei;
+}
+
 /* Validates the authenticity using hashes in the |nalu_list|.
  *
  * In brief, the validation verifies hashes and sets the |validation_status| given the outcome.
@@ -632,7 +644,10 @@ validate_authenticity(signed_video_t *self)
   bool verify_success = false;
   bool sei_is_authentic = true;
 
-  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost) {
+  // Without pending NALUs prior to the SEI there is nothing to mark as not OK, hence nothing would ever
+  // change. Then use the SEI even if a previous one has been lost.
+  if (gop_state->has_lost_sei && !gop_state->gop_transition_is_lost &&
+      has_pending_nalus_before_sei(self->nalu_list)) {
     DEBUG_LOG("We never received the SEI associated with this GOP");
     // We never received the SEI nalu, but we know we have passed a GOP transition. Hence, we cannot
     // verify this GOP. Marking this GOP as not OK by verify_hashes_without_sei().
-- 
2.43.0


From 8c4ac2bc8149e349659459becb05c8b2f03f1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:08 +0000
Subject: [PATCH 19/63] fix: keep the hashable data of a SEI without emulation
 prevention when the hash algorithm is not yet known

---
 lib/src/signed_video_h26x_nalu_list.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/src/signed_video_h26x_nalu_list.c b/lib/src/signed_video_h26x_nalu_list.c
index 0a9e3db..41ca0d3 100644
--- a/lib/src/signed_video_h26x_nalu_list.c
+++ b/lib/src/signed_video_h26x_nalu_list.c
@@ -319,7 +319,6 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
   while (!(item->nalu)) {
     item = item->prev;
   }
-  int hashable_data_offset = item->nalu->hashable_data - item->nalu->nalu_data;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
@@ -333,11 +332,19 @@ h26x_nalu_list_copy_last_item(h26x_nalu_list_t *list, bool hash_algo_known)
     }
     // If the library does not know which hash algo to use, store the |hashable_data| for later.
     if (!hash_algo_known) {
-      nalu_data = malloc(item->nalu->nalu_data_size);
+      // If the emulation prevention bytes are not hashed, the |hashable_data| of a SEI is not part of
+      // the |nalu_data|. It is then stored after the |nalu_data|.
+      const bool is_separate = item->nalu->is_hashable && item->nalu->nalu_data_wo_epb &&
+          (item->nalu->hashable_data == item->nalu->nalu_data_wo_epb);
+      const size_t separate_size = is_separate ? item->nalu->hashable_data_size : 0;
+      nalu_data = malloc(item->nalu->nalu_data_size + separate_size);
       SV_THROW_IF(!nalu_data, SV_MEMORY);
       memcpy(nalu_data, item->nalu->nalu_data, item->nalu->nalu_data_size);
-      if (item->nalu->is_hashable) {
-        hashable_data = nalu_data + hashable_data_offset;
+      if (is_separate) {
+        hashable_data = nalu_data + item->nalu->nalu_data_size;
+        memcpy(hashable_data, item->nalu->hashable_data, separate_size);
+      } else if (item->nalu->is_hashable) {
+        hashable_data = nalu_data + (item->nalu->hashable_data - item->nalu->nalu_data);
       }
     }
     copy_nalu_except_pointers(copied_nalu, item->nalu);
-- 
2.43.0


From dc177edd7c61052567a29fe7e771e395e147f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:25 +0000
Subject: [PATCH 20/63] fix: wait for the hash algorithm also if the public key
 is known in advance

---
 lib/src/signed_video_h26x_auth.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index a1fb0fe..4421c94 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -892,6 +892,19 @@ is_recurrent_data_decoded(signed_video_t *self)
   return recurrent_data_decoded;
 }
 
+/* The hash algorithm is part of the recurrent data, which is not necessarily present in every SEI. If
+ * the public key is already known, wait for the SEI with the recurrent data. */
+static bool
+is_waiting_for_hash_algo(const signed_video_t *self, const h26x_nalu_t *nalu)
+{
+  if (!self->validation_flags.signing_present || self->validation_flags.hash_algo_known) return false;
+  if (!nalu->is_gop_sei) return true;
+  if (nalu->is_golden_sei || !(nalu->reserved_byte & 0x30)) return false;
+
+  return !tlv_find_tag(nalu->tlv_data, nalu->tlv_size, PRODUCT_INFO_TAG, false) &&
+      !tlv_find_tag(nalu->tlv_data, nalu->tlv_size, CRYPTO_INFO_TAG, false);
+}
+
 /* Loops through the |nalu_list| to find out if there are GOPs that awaits validation. */
 static bool
 has_pending_gop(signed_video_t *self)
@@ -982,6 +995,7 @@ maybe_validate_gop(signed_video_t *self, h26x_nalu_t *nalu)
   validation_feasible &= validation_is_feasible(nalu_list->last_item);
   // Make sure there is enough information to perform validation.
   validation_feasible &= is_recurrent_data_decoded(self);
+  validation_feasible &= !is_waiting_for_hash_algo(self, nalu);
 
   // Abort if validation is not feasible.
   if (!validation_feasible) {
@@ -1178,7 +1192,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // crypto TLV tag has been decoded it is feasible to hash the temporarily stored NAL
     // Units.
     if (!self->validation_flags.hash_algo_known && self->validation_flags.signing_present &&
-        is_recurrent_data_decoded(self)) {
+        is_recurrent_data_decoded(self) && !is_waiting_for_hash_algo(self, &nalu)) {
       if (!self->validation_flags.hash_algo_known) {
         // If the public key was set by the user, or is kept through a reset, no recurrent data has
         // been decoded. The hash algorithm is still given by the SEI.
-- 
2.43.0


From fbc6392261c13595a495e0bb00d059f970159c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 21/63] fix: validate a golden SEI also if NAL Units precede it

A golden SEI must be the first SEI, but not the first NAL Unit of the stream. The NAL Units
received before it were not hashed when the GOP hash was computed for the golden SEI, so adding
it failed and the session could never recover.
---
 lib/src/signed_video_h26x_auth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 4421c94..0fc0199 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -823,7 +823,11 @@ prepare_for_validation(signed_video_t *self)
         memcpy(verify_data->hash, sei->hash, hash_size);
       }
       detect_lost_sei(self);
-      SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+      // A golden SEI is not associated with a GOP. Note that NAL Units received before the golden SEI
+      // have not been hashed yet.
+      if (!sei->nalu->is_golden_sei) {
+        SV_THROW(prepare_for_link_and_gop_hash_verification(self, sei));
+      }
     }
 
     SV_THROW_IF_WITH_MSG(validation_flags->signing_present && !self->has_public_key,
-- 
2.43.0


From d5d113a5756af73031425005382d4ce37ff49cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:42 +0000
Subject: [PATCH 22/63] fix: keep hashes when the output buffer of the central
 signing thread is full

---
 lib/plugins/threaded-signing/plugin.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 68b8124..8c3ca7d 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -28,8 +28,8 @@
  *
  * If the plugin is initialized, sv_signing_plugin_init(), one single central thread is spawned.
  * Each Signed Video session will then get an id to distiguish between them since they use common
- * input and output buffers. The thread is stopped if 1) the out buffer is full, 2) there was a
- * failure in the memory allocation for a new signature or 3) sv_signing_plugin_exit() is called.
+ * input and output buffers. The thread waits if the out buffer is full, and is stopped if 1) there
+ * was a failure in the memory allocation for a new signature or 2) sv_signing_plugin_exit() is called.
  */
 
 #include <assert.h>
@@ -339,6 +339,8 @@ get_signature(threaded_data_t *self,
   }
   self->out[MAX_BUFFER_LENGTH - 1] = tmp;
   self->out_idx--;
+  // The central worker thread waits if |out| is full. Signal that there is now room.
+  g_cond_signal(&self->cond);
 
 done:
   g_mutex_unlock(&self->mutex);
@@ -450,7 +452,9 @@ central_worker_thread(void *user_data)
   g_cond_signal(&(central.cond));
 
   while (central.is_running) {
-    if (central.in_idx > 0) {
+    // If |out| is full, wait until there is room. The hashes are kept in |in|, since a session cannot
+    // be told that signatures are lost and would pair the next signature with the wrong hash.
+    if (central.in_idx > 0 && central.out_idx < MAX_BUFFER_LENGTH) {
       SignedVideoReturnCode status = SV_UNKNOWN_FAILURE;
       // Get the oldest hash from the input buffer
       // Copy the hash to |sign_data| and start signing.
@@ -484,15 +488,9 @@ central_worker_thread(void *user_data)
         continue;
       }
 
+      // Only this thread adds signatures, hence there is still room in |out|.
       int idx = central.out_idx;
-      if (idx >= MAX_BUFFER_LENGTH) {
-        // |out| is full. Buffers this long are not supported.
-        // There are no means to signal an error to the signing session. Flush all buffers for this
-        // id and move on.
-        status = SV_NOT_SUPPORTED;
-        buffer_reset(id_in_signing);
-        continue;
-      }
+      assert(idx < MAX_BUFFER_LENGTH);
 
       // If not successfully done with signing, set |signing_error| to true to
       // report the error when getting the signature.
@@ -585,6 +583,8 @@ central_teardown(central_threaded_data_t *self)
   g_mutex_lock(&(central.mutex));
   buffer_reset(self->id);
   delete_item(self->id);
+  // There may now be room in |out|.
+  g_cond_signal(&(central.cond));
   g_mutex_unlock(&(central.mutex));
 
   free(self);
-- 
2.43.0


From 4021185123e7b7df4c9a8e60d2872d7222a7d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:42 +0000
Subject: [PATCH 23/63] fix: do not read outside the input buffer of a local
 signing thread

---
 lib/plugins/threaded-signing/plugin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/plugins/threaded-signing/plugin.c b/lib/plugins/threaded-signing/plugin.c
index 8c3ca7d..d605e0b 100644
--- a/lib/plugins/threaded-signing/plugin.c
+++ b/lib/plugins/threaded-signing/plugin.c
@@ -618,7 +618,7 @@ local_worker_thread(void *user_data)
       // Move the oldest input buffer to end of queue for reuse at a later stage.
       hash_data_t tmp = self->in[0];
       int j = 0;
-      while (self->in[j + 1].hash != NULL && j < MAX_BUFFER_LENGTH - 1) {
+      while (j < MAX_BUFFER_LENGTH - 1 && self->in[j + 1].hash != NULL) {
         self->in[j] = self->in[j + 1];
         j++;
       }
-- 
2.43.0


From f11665e324c915ea40b6d91a4c28bb608e062def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 24/63] fix: do not search for certificates in a chain that has
 not been set

---
 .../axis-communications/sv_vendor_axis_communications.c      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 66daf95..bb74c40 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -558,12 +558,13 @@ encode_axis_communications_handle(void *handle, uint16_t *last_two_bytes, bool e
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
   size_t data_size = 0;
-  // Get the size of the untrusted certificates that will be added to the tag.
-  size_t certificate_chain_encode_size = get_untrusted_certificates_size(self);
+  size_t certificate_chain_encode_size = 0;
   const uint8_t version = 1;  // Increment when the change breaks the format
 
   // If there is no attestation or certificate chain, skip encoding, that is return 0.
   if (!self->attestation || !self->certificate_chain) return 0;
+  // Get the size of the untrusted certificates that will be added to the tag.
+  certificate_chain_encode_size = get_untrusted_certificates_size(self);
 
   // Version 1:
   //  - version (1 byte)
-- 
2.43.0


From 3dd50cb1b86fc69191794549cec176084f415984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 25/63] fix: do not add an attestation without certificates to
 the SEI

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index bb74c40..d4ab012 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -565,6 +565,8 @@ encode_axis_communications_handle(void *handle, uint16_t *last_two_bytes, bool e
   if (!self->attestation || !self->certificate_chain) return 0;
   // Get the size of the untrusted certificates that will be added to the tag.
   certificate_chain_encode_size = get_untrusted_certificates_size(self);
+  // If the certificate chain is incomplete the validation side cannot use it, hence skip encoding.
+  if (certificate_chain_encode_size == 0) return 0;
 
   // Version 1:
   //  - version (1 byte)
-- 
2.43.0


From 4bcdaff57e84619c37c3851559ab9e6a82be5152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 26/63] fix: do not use a public key that has been freed when
 verifying it

---
 lib/src/legacy/legacy_tlv.c                           | 11 ++++++-----
 lib/src/signed_video_tlv.c                            | 11 ++++++-----
 .../sv_vendor_axis_communications.c                   |  4 +++-
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index ab75a40..f688d3a 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -373,13 +373,14 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
-    // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-    // |vendor_handle|.
+    // Always set |public_key| to |vendor_handle|, since the previous one does no longer exist. If
+    // "Axis Communications AB" can be identified from the |product_info| it has to be accepted.
+    svrc_t vendor_status = set_axis_communications_public_key(self->vendor_handle,
+        self->verify_data->key,
+        self->latest_validation && self->latest_validation->public_key_has_changed);
     if (self->product_info->manufacturer &&
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
-      // Set public key.
-      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
+      SV_THROW(vendor_status);
     }
 #endif
 
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 4a65ca4..45ceccf 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -732,13 +732,14 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
     SV_THROW(openssl_public_key_malloc(self->verify_data, &self->pem_public_key));
 
 #ifdef SV_VENDOR_AXIS_COMMUNICATIONS
-    // If "Axis Communications AB" can be identified from the |product_info|, set |public_key| to
-    // |vendor_handle|.
+    // Always set |public_key| to |vendor_handle|, since the previous one does no longer exist. If
+    // "Axis Communications AB" can be identified from the |product_info| it has to be accepted.
+    svrc_t vendor_status = set_axis_communications_public_key(self->vendor_handle,
+        self->verify_data->key,
+        self->latest_validation && self->latest_validation->public_key_has_changed);
     if (self->product_info->manufacturer &&
         strcmp(self->product_info->manufacturer, "Axis Communications AB") == 0) {
-      // Set public key.
-      SV_THROW(set_axis_communications_public_key(self->vendor_handle, self->verify_data->key,
-          self->latest_validation->public_key_has_changed));
+      SV_THROW(vendor_status);
     }
 #endif
 
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index d4ab012..232af69 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -682,8 +682,10 @@ set_axis_communications_public_key(void *handle,
   // The |public_key| is on EVP_PKEY_CTX form.
   EVP_PKEY *pkey = EVP_PKEY_CTX_get0_pkey((EVP_PKEY_CTX *)public_key);
 
-  // If the Public key previously has been validated unsuccessful, skip checking type and size.
+  // If the Public key previously has been validated unsuccessful, skip checking type and size. The
+  // previous key does no longer exist though.
   if (self->supplemental_authenticity.public_key_validation == 0) {
+    self->public_key = public_key;
     return SV_OK;
   }
 
-- 
2.43.0


From f4976c53e2178c35e72ac1fe733d614530fcea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 27/63] fix: report that public key validation is not feasible
 without an attestation

---
 lib/src/legacy/legacy_h26x_auth.c                          | 4 +++-
 lib/src/signed_video_h26x_auth.c                           | 4 +++-
 .../axis-communications/sv_vendor_axis_communications.c    | 7 +++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 007e639..ac3436c 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -734,7 +734,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      // The serial number is only known if the public key has been validated.
+      if (supplemental_authenticity->public_key_validation == 1 &&
+          strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 0fc0199..a461972 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -842,7 +842,9 @@ prepare_for_validation(signed_video_t *self)
       sv_vendor_axis_supplemental_authenticity_t *supplemental_authenticity = NULL;
       SV_THROW(get_axis_communications_supplemental_authenticity(
           self->vendor_handle, &supplemental_authenticity));
-      if (strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
+      // The serial number is only known if the public key has been validated.
+      if (supplemental_authenticity->public_key_validation == 1 &&
+          strcmp(self->product_info->serial_number, supplemental_authenticity->serial_number)) {
         self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_OK;
       } else {
         // Convert to SignedVideoPublicKeyValidation
diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 232af69..004a52e 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -734,6 +734,13 @@ get_axis_communications_supplemental_authenticity(void *handle,
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
 
+  // Without an attestation, a certificate chain or a public key in the stream it is not feasible to
+  // validate the public key.
+  if (!self->attestation || !self->certificate_chain || !self->public_key) {
+    *supplemental_authenticity = &self->supplemental_authenticity;
+    return SV_OK;
+  }
+
   // TODO: Fill in the skeleton below step by step.
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 94cc9eca44c3587cdda76a2a6f6a381ef027bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 28/63] fix: do not read outside the vendor data of a SEI

---
 .../axis-communications/sv_vendor_axis_communications.c    | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 004a52e..068866b 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -609,6 +609,9 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
   if (!handle) return SV_INVALID_PARAMETER;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)handle;
+  // At least a version, the |attestation_size| and one byte.
+  if (!data || data_size < 3) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint8_t attestation_size = 0;
@@ -620,6 +623,8 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     // Read |attestation_size|.
     attestation_size = *data_ptr++;
     SV_THROW_IF(attestation_size == 0, SV_NOT_SUPPORTED);
+    // The data has to include the |attestation| and a |certificate_chain|.
+    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     // Allocate memory for |attestation|.
     if (!self->attestation) {
       self->attestation = malloc(attestation_size);
@@ -639,7 +644,6 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
     //  - 1 byte for version
     //  - 1 bytes for |attestation_size|
     //  - |attestation_size| bytes for |attestation|
-    SV_THROW_IF(data_size <= (size_t)attestation_size + 2, SV_AUTHENTICATION_ERROR);
     cert_size = data_size - attestation_size - 2;
 
     // Allocate memory for |certificate_chain| including null-terminated character.
@@ -649,6 +653,7 @@ decode_axis_communications_handle(void *handle, const uint8_t *data, size_t data
       memcpy(self->certificate_chain, data_ptr, cert_size);
     }
     // Compare incoming certificate chain against present and throw an error if they differ.
+    SV_THROW_IF(cert_size != strlen(self->certificate_chain), SV_NOT_SUPPORTED);
     SV_THROW_IF(memcmp(data_ptr, self->certificate_chain, cert_size), SV_NOT_SUPPORTED);
     // Move pointer past |certificate_chain|.
     data_ptr += cert_size;
-- 
2.43.0


From 6ef0e0cc6d3e499afc1a8b3a0c08aa12ae5a1e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 29/63] fix: do not set an attestation if the certificate chain
 is rejected

---
 .../axis-communications/sv_vendor_axis_communications.c       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 068866b..21d0123 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -789,6 +789,10 @@ sv_vendor_axis_communications_set_attestation_report(signed_video_t *sv,
   if (!sv->vendor_handle) return SV_NOT_SUPPORTED;
 
   sv_vendor_axis_communications_t *self = (sv_vendor_axis_communications_t *)sv->vendor_handle;
+  // Neither of them can be set if either one already exists.
+  if ((attestation && self->attestation) || (certificate_chain && self->certificate_chain)) {
+    return SV_NOT_SUPPORTED;
+  }
   bool allocated_attestation = false;
   bool allocated_certificate_chain = false;
   // The user wants to set the |attestation|.
-- 
2.43.0


From 8093a93e10df6977cce41ef67bbfc2b3e2bc2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 30/63] fix: free the message digest context of the vendor
 handle

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 21d0123..6b5ece3 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -512,6 +512,7 @@ sv_vendor_axis_communications_teardown(void *handle)
 
   free(self->attestation);
   free(self->certificate_chain);
+  EVP_MD_CTX_free(self->md_ctx);
   X509_free(self->trusted_ca);
   free(self);
 }
-- 
2.43.0


From 66ed54a8534bc390ed86f9f354a0c1696d120777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:10 +0000
Subject: [PATCH 31/63] fix: do not keep the public key validation result if
 the manufacturer changes

---
 lib/src/legacy/legacy_h26x_auth.c | 3 +++
 lib/src/signed_video_h26x_auth.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index ac3436c..5cd2a1c 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -753,6 +753,9 @@ legacy_prepare_for_validation(legacy_sv_t *self)
             break;
         }
       }
+    } else {
+      // A result from before the manufacturer changed is not valid for the current public key.
+      self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     }
 #endif
 
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index a461972..4e2faa7 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -861,6 +861,9 @@ prepare_for_validation(signed_video_t *self)
             break;
         }
       }
+    } else {
+      // A result from before the manufacturer changed is not valid for the current public key.
+      self->latest_validation->public_key_validation = SV_PUBKEY_VALIDATION_NOT_FEASIBLE;
     }
 #endif
 
-- 
2.43.0


From cb204c669a47b5b9cf15e616b585469d4fb18314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:10 +0000
Subject: [PATCH 32/63] fix: find the signature also in a SEI with many
 emulation prevention bytes

---
 lib/src/legacy/legacy_h26x_auth.c | 7 ++++++-
 lib/src/signed_video_h26x_auth.c  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 5cd2a1c..7bc9d57 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -985,8 +985,13 @@ legacy_update_hashable_data(legacy_h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  //
+  // Note that |tlv_size| does not include the emulation prevention bytes, hence search through all
+  // hashable data.
+  const size_t search_size =
+      nalu->hashable_data_size - (nalu->tlv_start_in_nalu_data - nalu->hashable_data);
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, search_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 4e2faa7..1bc6078 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1107,8 +1107,13 @@ update_hashable_data(h26x_nalu_t *nalu)
   // re-calculate hashable_data_size by subtracting the number of bytes (including potential
   // emulation prevention bytes) coresponding to that tag. This is done by scanning the TLV for that
   // tag.
+  //
+  // Note that |tlv_size| does not include the emulation prevention bytes, hence search through all
+  // hashable data.
+  const size_t search_size =
+      nalu->hashable_data_size - (nalu->tlv_start_in_nalu_data - nalu->hashable_data);
   const uint8_t *signature_tag_ptr =
-      tlv_find_tag(nalu->tlv_start_in_nalu_data, nalu->tlv_size, SIGNATURE_TAG, nalu->with_epb);
+      tlv_find_tag(nalu->tlv_start_in_nalu_data, search_size, SIGNATURE_TAG, nalu->with_epb);
 
   if (signature_tag_ptr) nalu->hashable_data_size = signature_tag_ptr - nalu->hashable_data;
 }
-- 
2.43.0


From 672e85037a2873bf20125772c16e4632e8f889d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 33/63] fix: do not read outside a NAL Unit when parsing its
 header

---
 lib/src/legacy/legacy_h26x_common.c | 16 ++++++++++++----
 lib/src/signed_video_h26x_common.c  | 13 ++++++++++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 8d8cd5e..46d3fb9 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -197,6 +197,7 @@ static bool
 legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
 {
   // Parse the H264 NAL Unit Header
+  if (nalu->hashable_data_size < LEGACY_H264_NALU_HEADER_LEN) return false;
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
   uint8_t nal_ref_idc = nalu_header & 0x60;  // Two bits
@@ -204,7 +205,8 @@ legacy_parse_h264_nalu_header(legacy_h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -260,6 +262,7 @@ static bool
 legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
 {
   // Parse the H265 NAL Unit Header
+  if (nalu->hashable_data_size < LEGACY_H265_NALU_HEADER_LEN) return false;
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
   uint8_t nalu_type = (nalu_header & 0x7E) >> 1;  // Six bits
@@ -275,7 +278,8 @@ legacy_parse_h265_nalu_header(legacy_h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > LEGACY_H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + LEGACY_H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -460,9 +464,11 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
   bool nalu_header_is_valid = false;
 
+  // Less than four bytes cannot hold both a Start Code and a NALU header.
+  if (nalu_data_size > 3) read_bytes = read_32bits(nalu_data, &start_code);
   if (start_code != kStartCode) {
     // Check if this is a 3 byte Start Code.
     read_bytes = 3;
@@ -474,6 +480,7 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
@@ -495,7 +502,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
   // reason for this is still unknown. Therefore we end the hashable part at the byte including the
   // stop bit.
-  while (check_trailing_bytes && (nalu_data[nalu_data_size - 1] == 0x00)) {
+  while (check_trailing_bytes && (nalu_data_size > read_bytes) &&
+      (nalu_data[nalu_data_size - 1] == 0x00)) {
     DEBUG_LOG("Found trailing 0x00");
     nalu_data_size--;
   }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 2824f4e..19aa76e 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -343,6 +343,7 @@ static bool
 parse_h264_nalu_header(h26x_nalu_t *nalu)
 {
   // Parse the H264 NAL Unit Header
+  if (nalu->hashable_data_size < H264_NALU_HEADER_LEN) return false;
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
   uint8_t nal_ref_idc = nalu_header & 0x60;  // Two bits
@@ -350,7 +351,8 @@ parse_h264_nalu_header(h26x_nalu_t *nalu)
   bool nalu_header_is_valid = false;
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = *(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80;
+  nalu->is_primary_slice = (nalu->hashable_data_size > H264_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H264_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -406,6 +408,7 @@ static bool
 parse_h265_nalu_header(h26x_nalu_t *nalu)
 {
   // Parse the H265 NAL Unit Header
+  if (nalu->hashable_data_size < H265_NALU_HEADER_LEN) return false;
   uint8_t nalu_header = *(nalu->hashable_data);
   bool forbidden_zero_bit = (bool)(nalu_header & 0x80);  // First bit
   uint8_t nalu_type = (nalu_header & 0x7E) >> 1;  // Six bits
@@ -421,7 +424,8 @@ parse_h265_nalu_header(h26x_nalu_t *nalu)
   }
 
   // First slice in the current NALU or not
-  nalu->is_primary_slice = (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
+  nalu->is_primary_slice = (nalu->hashable_data_size > H265_NALU_HEADER_LEN) &&
+      (*(nalu->hashable_data + H265_NALU_HEADER_LEN) & 0x80);
 
   // Verify that NALU type and nal_ref_idc follow standard.
   switch (nalu_type) {
@@ -606,9 +610,11 @@ parse_nalu_info(const uint8_t *nalu_data,
   // We need to support all three cases.
   const uint32_t kStartCode = 0x00000001;
   uint32_t start_code = 0;
-  size_t read_bytes = read_32bits(nalu_data, &start_code);
+  size_t read_bytes = 0;
   bool nalu_header_is_valid = false;
 
+  // Less than four bytes cannot hold both a Start Code and a NALU header.
+  if (nalu_data_size > 3) read_bytes = read_32bits(nalu_data, &start_code);
   if (start_code != kStartCode) {
     // Check if this is a 3 byte Start Code.
     read_bytes = 3;
@@ -620,6 +626,7 @@ parse_nalu_info(const uint8_t *nalu_data,
     }
   }
   nalu.hashable_data = &nalu_data[read_bytes];
+  nalu.hashable_data_size = nalu_data_size - read_bytes;
   nalu.start_code = start_code;
 
   if (codec == SV_CODEC_H264) {
-- 
2.43.0


From 3fe35a78efdb14d9c52bc515e472c745085f1e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 34/63] fix: do not read outside a SEI if the payload is not
 complete

---
 lib/src/legacy/legacy_h26x_common.c | 24 ++++++++++++++++--------
 lib/src/signed_video_h26x_common.c  | 26 +++++++++++++++++---------
 lib/src/signed_video_tlv.c          | 12 ++++++++++++
 lib/src/signed_video_tlv.h          | 11 +++++++++++
 4 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 46d3fb9..508f80d 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -171,14 +171,14 @@ legacy_reset_gop_hash(legacy_sv_t *self)
 }
 
 static size_t
-legacy_get_payload_size(const uint8_t *data, size_t *payload_size)
+legacy_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -413,8 +413,11 @@ legacy_remove_epb_from_sei_payload(legacy_h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
+    const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
     for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+      // Data that is not there is read as zeros.
+      nalu->nalu_data_wo_epb[i] =
+          read_byte_before(hashable_data_end, &last_two_bytes, &hashable_data_ptr, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
     nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
@@ -510,7 +513,8 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   nalu.hashable_data_size = nalu_data_size - read_bytes;
 
   // For SEI-nalus we parse payload and uuid information.
-  if (nalu.nalu_type == NALU_TYPE_SEI) {
+  if (nalu.nalu_type == NALU_TYPE_SEI && nalu.hashable_data_size > nalu_header_len) {
+    const uint8_t *data_end = nalu.hashable_data + nalu.hashable_data_size;
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
     // Check user_data_unregistered
@@ -519,7 +523,7 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
     if (user_data_unregistered == LEGACY_USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = legacy_get_payload_size(payload, &payload_size);
+      size_t read_bytes = legacy_get_payload_size(payload, data_end, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -535,8 +539,12 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      // Decode UUID type. The payload of a Signed Video SEI includes, apart from the UUID, at least
+      // the |reserved_byte|. Further, if the NALU is complete, so is the payload.
+      const size_t min_payload_size = check_trailing_bytes ? payload_size : UUID_LEN + 1;
+      if (payload_size > UUID_LEN && min_payload_size <= (size_t)(data_end - payload)) {
+        nalu.uuid_type = legacy_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 19aa76e..51685d5 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -58,7 +58,7 @@ static void
 gop_info_free(gop_info_t *gop_info);
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size);
+h264_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size);
 static SignedVideoUUIDType
 h264_get_uuid_sei_type(const uint8_t *uuid);
 static void
@@ -317,14 +317,14 @@ struct_member_memory_allocated_and_copy(void **member_ptr,
 }
 
 static size_t
-h264_get_payload_size(const uint8_t *data, size_t *payload_size)
+h264_get_payload_size(const uint8_t *data, const uint8_t *data_end, size_t *payload_size)
 {
   const uint8_t *data_ptr = data;
   // Get payload size (including uuid). We assume the data points to the size bytes.
-  while (*data_ptr == 0xFF) {
+  while (data_ptr < data_end && *data_ptr == 0xFF) {
     *payload_size += *data_ptr++;
   }
-  *payload_size += *data_ptr++;
+  if (data_ptr < data_end) *payload_size += *data_ptr++;
 
   return (data_ptr - data);
 }
@@ -559,8 +559,11 @@ remove_epb_from_sei_payload(h26x_nalu_t *nalu)
     // Copy everything from the NALU header to stop bit (byte) inclusive, but with the emulation
     // prevention bytes removed.
     const uint8_t *hashable_data_ptr = nalu->hashable_data;
+    const uint8_t *hashable_data_end = nalu->hashable_data + nalu->hashable_data_size;
     for (size_t i = 0; i < data_size; i++) {
-      nalu->nalu_data_wo_epb[i] = read_byte(&last_two_bytes, &hashable_data_ptr, true);
+      // Data that is not there is read as zeros.
+      nalu->nalu_data_wo_epb[i] =
+          read_byte_before(hashable_data_end, &last_two_bytes, &hashable_data_ptr, true);
     }
     // Point |tlv_data| to the first byte of the TLV part in |nalu_data_wo_epb|.
     nalu->tlv_data = &nalu->nalu_data_wo_epb[data_size - nalu->payload_size + UUID_LEN];
@@ -656,7 +659,8 @@ parse_nalu_info(const uint8_t *nalu_data,
   nalu.hashable_data_size = nalu_data_size - read_bytes;
 
   // For SEI-nalus we parse payload and uuid information.
-  if (nalu.nalu_type == NALU_TYPE_SEI) {
+  if (nalu.nalu_type == NALU_TYPE_SEI && nalu.hashable_data_size > nalu_header_len) {
+    const uint8_t *data_end = nalu.hashable_data + nalu.hashable_data_size;
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
     // Check user_data_unregistered
@@ -665,7 +669,7 @@ parse_nalu_info(const uint8_t *nalu_data,
     if (user_data_unregistered == USER_DATA_UNREGISTERED) {
       // Decode payload size and compute emulation prevention bytes
       size_t payload_size = 0;
-      size_t read_bytes = h264_get_payload_size(payload, &payload_size);
+      size_t read_bytes = h264_get_payload_size(payload, data_end, &payload_size);
       payload += read_bytes;
       nalu.payload = payload;
       nalu.payload_size = payload_size;
@@ -681,8 +685,12 @@ parse_nalu_info(const uint8_t *nalu_data,
       nalu.emulation_prevention_bytes = epb;
       DEBUG_LOG("Computed %d emulation prevention byte(s)", nalu.emulation_prevention_bytes);
 
-      // Decode UUID type
-      nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      // Decode UUID type. The payload of a Signed Video SEI includes, apart from the UUID, at least
+      // the |reserved_byte|. Further, if the NALU is complete, so is the payload.
+      const size_t min_payload_size = check_trailing_bytes ? payload_size : UUID_LEN + 1;
+      if (payload_size > UUID_LEN && min_payload_size <= (size_t)(data_end - payload)) {
+        nalu.uuid_type = h264_get_uuid_sei_type(payload);
+      }
     } else {
       // We only have UUID if SEI-NALU is user_data_unregistered
       nalu.uuid_type = UUID_TYPE_UNDEFINED;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 45ceccf..a5fcfa2 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1380,6 +1380,18 @@ read_byte(uint16_t *last_two_bytes, const uint8_t **data, bool do_emulation_prev
   return curr_byte;
 }
 
+uint8_t
+read_byte_before(const uint8_t *data_end,
+    uint16_t *last_two_bytes,
+    const uint8_t **data,
+    bool do_emulation_prevention)
+{
+  if (*data >= data_end) return 0;
+  // An emulation prevention byte is always followed by another byte. If it is not there, the byte is
+  // not an emulation prevention byte.
+  return read_byte(last_two_bytes, data, do_emulation_prevention && (*data + 1 < data_end));
+}
+
 void
 write_byte(uint16_t *last_two_bytes,
     uint8_t **data,
diff --git a/lib/src/signed_video_tlv.h b/lib/src/signed_video_tlv.h
index e59d4ba..439cc14 100644
--- a/lib/src/signed_video_tlv.h
+++ b/lib/src/signed_video_tlv.h
@@ -129,6 +129,17 @@ write_byte(uint16_t *last_two_bytes, uint8_t **payload, uint8_t byte, bool do_em
 uint8_t
 read_byte(uint16_t *last_two_bytes, const uint8_t **payload, bool do_emulation_prevention);
 
+/**
+ * @brief Reads a byte from payload, if it is located before |payload_end|, w/wo emulation prevention
+ *
+ * @returns The byte read. If there are no bytes left, 0 is returned.
+ */
+uint8_t
+read_byte_before(const uint8_t *payload_end,
+    uint16_t *last_two_bytes,
+    const uint8_t **payload,
+    bool do_emulation_prevention);
+
 /**
  * @brief Scans the TLV part of a SEI payload and decodes all recurrent tags
  *
-- 
2.43.0


From 2b4f2e24a2772bc98b2898826a53925f0ca4e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 35/63] fix: do not search for a tag outside the TLV data

---
 lib/src/signed_video_tlv.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index a5fcfa2..9def91a 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -1224,25 +1224,27 @@ tlv_find_tag(const uint8_t *tlv_data, size_t tlv_data_size, sv_tlv_tag_t tag, bo
 
   if (!tlv_data || tlv_data_size == 0) return 0;
 
+  const uint8_t *tlv_data_end = tlv_data + tlv_data_size;
   uint16_t last_two_bytes = LAST_TWO_BYTES_INIT_VALUE;
-  while (tlv_data_ptr < tlv_data + tlv_data_size) {
+  while (tlv_data_ptr < tlv_data_end) {
     latest_tag_location = tlv_data_ptr;
     // Read the tag
-    sv_tlv_tag_t this_tag = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    sv_tlv_tag_t this_tag =
+        read_byte_before(tlv_data_end, &last_two_bytes, &tlv_data_ptr, with_ep);
     if (this_tag == tag) {
       return latest_tag_location;
     }
 
     // Read the length
-    uint16_t length = read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+    uint16_t length = read_byte_before(tlv_data_end, &last_two_bytes, &tlv_data_ptr, with_ep);
     sv_tlv_tuple_t tlv = get_tlv_tuple(this_tag);
     if (tlv.bytes_for_length == 2) {
       length <<= 8;
-      length |= read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      length |= read_byte_before(tlv_data_end, &last_two_bytes, &tlv_data_ptr, with_ep);
     }
     // Scan past the data
     for (int i = 0; i < length; i++) {
-      read_byte(&last_two_bytes, &tlv_data_ptr, with_ep);
+      read_byte_before(tlv_data_end, &last_two_bytes, &tlv_data_ptr, with_ep);
     }
   }
   DEBUG_LOG("Never found the tag %d", tag);
-- 
2.43.0


From 26416b8b1a03ad98c39943c32a75b4aca0e26215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 36/63] fix: do not read outside a TLV when decoding it

---
 lib/src/legacy/legacy_tlv.c | 54 ++++++++++++++++++++++++++++++++++--
 lib/src/signed_video_tlv.c  | 55 +++++++++++++++++++++++++++++++++----
 2 files changed, 101 insertions(+), 8 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index f688d3a..fffa635 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -134,6 +134,7 @@ static legacy_sv_tlv_tuple_t
 legacy_get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length);
@@ -174,6 +175,8 @@ static svrc_t
 legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
   if (!self || !data) return SV_INVALID_PARAMETER;
+  // At least the version, GOP counter, number of NAL Units and code version should be present.
+  if (data_size < 1 + 4 + 2 + SV_VERSION_BYTES) return SV_AUTHENTICATION_ERROR;
 
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
@@ -201,7 +204,10 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size - (data_ptr - data) < 1, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
+      SV_THROW_IF(
+          (flags & 0x01) && data_size - (data_ptr - data) < 8, SV_AUTHENTICATION_ERROR);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
@@ -235,12 +241,23 @@ legacy_decode_general(legacy_sv_t *self, const uint8_t *data, size_t data_size)
   return status;
 }
 
+/* Checks if |data| holds a size (1 byte) followed by a null-terminated string of that size. */
+static bool
+has_string(const uint8_t *data, const uint8_t *data_end)
+{
+  if (data >= data_end) return false;
+  const size_t size = *data;
+  return size > 0 && size < (size_t)(data_end - data) && memchr(data + 1, '\0', size);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
 static svrc_t
 legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
@@ -252,23 +269,28 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 
     signed_video_product_info_t *product_info = self->product_info;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t hardware_id_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
     data_ptr += hardware_id_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t firmware_version_size = *data_ptr++;
     SV_THROW(
         allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
     data_ptr += firmware_version_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t serial_number_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
     data_ptr += serial_number_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t manufacturer_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
     data_ptr += manufacturer_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t address_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
     data_ptr += address_size;
@@ -298,6 +320,8 @@ legacy_decode_product_info(legacy_sv_t *self, const uint8_t *data, size_t data_s
 static svrc_t
 legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -337,6 +361,8 @@ legacy_decode_arbitrary_data(legacy_sv_t *self, const uint8_t *data, size_t data
 static svrc_t
 legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -407,6 +433,8 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 static svrc_t
 legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -443,6 +471,9 @@ legacy_decode_hash_list(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  // At least the version, info field, hash type and the size of the signature should be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   legacy_gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -500,10 +531,13 @@ legacy_decode_signature(legacy_sv_t *self, const uint8_t *data, size_t data_size
 static svrc_t
 legacy_decode_crypto_info(legacy_sv_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
+  if (hash_algo_encoded_oid_size > data_size - 2) return SV_AUTHENTICATION_ERROR;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
 
@@ -557,12 +591,13 @@ legacy_decode_axis_communications(legacy_sv_t ATTR_UNUSED *self,
 
 static svrc_t
 legacy_decode_tlv_header(const uint8_t *data,
+    size_t data_size,
     size_t *data_bytes_read,
     sv_tlv_tag_t *tag,
     size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -573,6 +608,8 @@ legacy_decode_tlv_header(const uint8_t *data,
     return SV_INVALID_PARAMETER;
   }
   *tag = tag_from_data;
+  // Check that the length is present as well.
+  if (data_size < 1 + (size_t)tlv.bytes_for_length) return SV_AUTHENTICATION_ERROR;
 
   if (tlv.bytes_for_length == 2) {
     data_ptr += read_16bits(data_ptr, (uint16_t *)length);
@@ -597,12 +634,18 @@ legacy_tlv_decode(legacy_sv_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = legacy_decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = legacy_decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
     }
     data_ptr += tlv_header_size;
+    if (length > (size_t)(data + data_size - data_ptr)) {
+      DEBUG_LOG("TLV exceeds the available data");
+      status = SV_AUTHENTICATION_ERROR;
+      break;
+    }
 
     legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(tag);
     status = decoder(self, data_ptr, length);
@@ -631,12 +674,17 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = legacy_decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = legacy_decode_tlv_header(
+        tlv_data_ptr, tlv_data + tlv_data_size - tlv_data_ptr, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
     }
     tlv_data_ptr += tlv_header_size;
+    if (length > (size_t)(tlv_data + tlv_data_size - tlv_data_ptr)) {
+      DEBUG_LOG("TLV exceeds the available data");
+      break;
+    }
     if (!tlv_tuples[this_tag].is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 9def91a..3cf57bb 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -178,7 +178,11 @@ get_decoder(sv_tlv_tag_t tag);
 static sv_tlv_tuple_t
 get_tlv_tuple(sv_tlv_tag_t tag);
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length);
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length);
 
 /* Selects and returns the correct decoder from either |tlv_tuples| or |vendor_tlv_tuples|. */
 static sv_tlv_decoder_t
@@ -307,6 +311,8 @@ static svrc_t
 decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
   if (!self || !data) return SV_INVALID_PARAMETER;
+  // At least the version, GOP counter, number of NAL Units and code version should be present.
+  if (data_size < 1 + 4 + 2 + SV_VERSION_BYTES) return SV_AUTHENTICATION_ERROR;
 
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
@@ -335,7 +341,10 @@ decode_general(signed_video_t *self, const uint8_t *data, size_t data_size)
     if (version >= 2) {
       // Read bool flags
       uint8_t flags = 0;
+      SV_THROW_IF(data_size - (data_ptr - data) < 1, SV_AUTHENTICATION_ERROR);
       data_ptr += read_8bits(data_ptr, &flags);
+      SV_THROW_IF(
+          (flags & 0x01) && data_size - (data_ptr - data) < 8, SV_AUTHENTICATION_ERROR);
       gop_info->has_timestamp = flags & 0x01;
       if (gop_info->has_timestamp) {
         data_ptr += read_64bits_signed(data_ptr, &gop_info->timestamp);
@@ -513,12 +522,23 @@ encode_product_info(signed_video_t *self, uint8_t *data)
   return (data_ptr - data);
 }
 
+/* Checks if |data| holds a size (1 byte) followed by a null-terminated string of that size. */
+static bool
+has_string(const uint8_t *data, const uint8_t *data_end)
+{
+  if (data >= data_end) return false;
+  const size_t size = *data;
+  return size > 0 && size < (size_t)(data_end - data) && memchr(data + 1, '\0', size);
+}
+
 /**
  * @brief Decodes the PRODUCT_INFO_TAG from data
  */
 static svrc_t
 decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   svrc_t status = SV_UNKNOWN_FAILURE;
@@ -530,23 +550,28 @@ decode_product_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     signed_video_product_info_t *product_info = self->product_info;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t hardware_id_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->hardware_id, (const char *)data_ptr));
     data_ptr += hardware_id_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t firmware_version_size = *data_ptr++;
     SV_THROW(
         allocate_memory_and_copy_string(&product_info->firmware_version, (const char *)data_ptr));
     data_ptr += firmware_version_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t serial_number_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->serial_number, (const char *)data_ptr));
     data_ptr += serial_number_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t manufacturer_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->manufacturer, (const char *)data_ptr));
     data_ptr += manufacturer_size;
 
+    SV_THROW_IF(!has_string(data_ptr, data + data_size), SV_AUTHENTICATION_ERROR);
     uint8_t address_size = *data_ptr++;
     SV_THROW(allocate_memory_and_copy_string(&product_info->address, (const char *)data_ptr));
     data_ptr += address_size;
@@ -609,6 +634,8 @@ encode_arbitrary_data(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_arbitrary_data(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   uint16_t arbdata_size = (uint16_t)(data_size - 1);
@@ -696,6 +723,8 @@ encode_public_key(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   pem_pkey_t *pem_public_key = &self->pem_public_key;
   uint8_t version = *data_ptr++;
@@ -807,6 +836,8 @@ encode_hash_list(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_hash_list(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 1) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_list_size = data_size - (data_ptr - data);
@@ -899,6 +930,9 @@ encode_signature(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_signature(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  // At least the version, info field, hash type and the size of the signature should be present.
+  if (data_size < 5) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   gop_info_t *gop_info = self->gop_info;
   sign_or_verify_data_t *verify_data = self->verify_data;
@@ -1000,10 +1034,13 @@ encode_crypto_info(signed_video_t *self, uint8_t *data)
 static svrc_t
 decode_crypto_info(signed_video_t *self, const uint8_t *data, size_t data_size)
 {
+  if (data_size < 2) return SV_AUTHENTICATION_ERROR;
+
   const uint8_t *data_ptr = data;
   uint8_t version = *data_ptr++;
   size_t hash_algo_encoded_oid_size = *data_ptr++;
   const unsigned char *hash_algo_encoded_oid = (const unsigned char *)data_ptr;
+  if (hash_algo_encoded_oid_size > data_size - 2) return SV_AUTHENTICATION_ERROR;
   char *hash_algo_name =
       openssl_encoded_oid_to_str(hash_algo_encoded_oid, hash_algo_encoded_oid_size);
 
@@ -1154,10 +1191,14 @@ tlv_list_encode_or_get_size(signed_video_t *self,
 }
 
 static svrc_t
-decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *tag, size_t *length)
+decode_tlv_header(const uint8_t *data,
+    size_t data_size,
+    size_t *data_bytes_read,
+    sv_tlv_tag_t *tag,
+    size_t *length)
 {
   // Sanity checks on input parameters.
-  if (!data || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
+  if (!data || data_size == 0 || !data_bytes_read || !tag || !length) return SV_INVALID_PARAMETER;
 
   const uint8_t *data_ptr = data;
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
@@ -1168,6 +1209,8 @@ decode_tlv_header(const uint8_t *data, size_t *data_bytes_read, sv_tlv_tag_t *ta
     return SV_INVALID_PARAMETER;
   }
   *tag = tag_from_data;
+  // Check that the length is present as well.
+  if (data_size < 1 + (size_t)tlv.bytes_for_length) return SV_AUTHENTICATION_ERROR;
 
   if (tlv.bytes_for_length == 2) {
     data_ptr += read_16bits(data_ptr, (uint16_t *)length);
@@ -1192,7 +1235,8 @@ tlv_decode(signed_video_t *self, const uint8_t *data, size_t data_size)
     sv_tlv_tag_t tag = 0;
     size_t tlv_header_size = 0;
     size_t length = 0;
-    status = decode_tlv_header(data_ptr, &tlv_header_size, &tag, &length);
+    status = decode_tlv_header(
+        data_ptr, data + data_size - data_ptr, &tlv_header_size, &tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode TLV header (error %d)", status);
       break;
@@ -1267,7 +1311,8 @@ tlv_find_and_decode_optional_tags(signed_video_t *self,
     size_t tlv_header_size = 0;
     size_t length = 0;
     sv_tlv_tag_t this_tag = UNDEFINED_TAG;
-    status = decode_tlv_header(tlv_data_ptr, &tlv_header_size, &this_tag, &length);
+    status = decode_tlv_header(
+        tlv_data_ptr, tlv_data + tlv_data_size - tlv_data_ptr, &tlv_header_size, &this_tag, &length);
     if (status != SV_OK) {
       DEBUG_LOG("Could not decode tlv header");
       break;
-- 
2.43.0


From 63b3e0e02505b093dab9e973d8f2b549f3136783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 37/63] fix: do not decode undefined tags in legacy validation

---
 lib/src/legacy/legacy_tlv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index fffa635..6d3ba09 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -603,7 +603,7 @@ legacy_decode_tlv_header(const uint8_t *data,
   sv_tlv_tag_t tag_from_data = (sv_tlv_tag_t)(*data_ptr++);
   *data_bytes_read = 0;
   legacy_sv_tlv_tuple_t tlv = legacy_get_tlv_tuple(tag_from_data);
-  if (tlv.tag != tag_from_data) {
+  if (tlv.tag != tag_from_data || !tlv.decoder) {
     DEBUG_LOG("Parsed an invalid tag (%d) in the data", tag_from_data);
     return SV_INVALID_PARAMETER;
   }
@@ -685,7 +685,7 @@ legacy_tlv_find_and_decode_optional_tags(legacy_sv_t *self,
       DEBUG_LOG("TLV exceeds the available data");
       break;
     }
-    if (!tlv_tuples[this_tag].is_always_present) {
+    if (!legacy_get_tlv_tuple(this_tag).is_always_present) {
       legacy_sv_tlv_decoder_t decoder = legacy_get_decoder(this_tag);
       status = decoder(self, tlv_data_ptr, length);
       if (status != SV_OK) {
-- 
2.43.0


From f16f8d2e512a742016cd8ca45700eabfaea35592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 38/63] fix: do not sign NAL Units that are ignored when
 validating

---
 lib/src/signed_video_h26x_common.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 51685d5..f4a441d 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -642,10 +642,13 @@ parse_nalu_info(const uint8_t *nalu_data,
   // If a correct NALU header could not be parsed, mark as invalid.
   nalu.is_valid = nalu_header_is_valid;
 
-  // Only picture NALUs are hashed.
-  if (nalu.nalu_type == NALU_TYPE_I || nalu.nalu_type == NALU_TYPE_P) nalu.is_hashable = true;
+  // Only picture NALUs are hashed. If the NALU header is invalid it is neither signed nor validated.
+  if (nalu.nalu_type == NALU_TYPE_I || nalu.nalu_type == NALU_TYPE_P) {
+    nalu.is_hashable = nalu_header_is_valid;
+  }
 
-  nalu.is_first_nalu_in_gop = (nalu.nalu_type == NALU_TYPE_I) && nalu.is_primary_slice;
+  nalu.is_first_nalu_in_gop =
+      (nalu.nalu_type == NALU_TYPE_I) && nalu.is_primary_slice && nalu_header_is_valid;
 
   // It has been noticed that, at least, ffmpeg can add a trailing 0x00 byte at the end of a NALU
   // when exporting to an mp4 container file. This has so far only been observed for H265. The
-- 
2.43.0


From 0ca26692155ea916f42bd666140a51130391e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 39/63] fix: count only pictures when determining the
 recurrence

---
 lib/src/signed_video_h26x_sign.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 2ac5460..48d7bd6 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -526,8 +526,8 @@ signed_video_add_nalu_part_for_signing_with_timestamp(signed_video_t *self,
     SV_THROW_IF(nalu.is_valid < 0, SV_INVALID_PARAMETER);
 
     // Note that |recurrence| is counted in frames and not in NALUs, hence we only increment the
-    // counter for primary slices.
-    if (nalu.is_primary_slice && nalu.is_last_nalu_part) {
+    // counter for primary slices of pictures.
+    if (nalu.is_hashable && nalu.is_primary_slice && nalu.is_last_nalu_part) {
       if ((self->frame_count % self->recurrence) == 0) {
         self->has_recurrent_data = true;
       }
-- 
2.43.0


From ff5207ec0188ab176a619ecfdd21f640b19e59a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:08 +0000
Subject: [PATCH 40/63] fix: do not treat a SEI with an invalid header as a
 Signed Video SEI

---
 lib/src/legacy/legacy_h26x_common.c | 5 +++--
 lib/src/signed_video_h26x_common.c  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 508f80d..93ea9af 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -512,8 +512,9 @@ legacy_parse_nalu_info(const uint8_t *nalu_data,
   }
   nalu.hashable_data_size = nalu_data_size - read_bytes;
 
-  // For SEI-nalus we parse payload and uuid information.
-  if (nalu.nalu_type == NALU_TYPE_SEI && nalu.hashable_data_size > nalu_header_len) {
+  // For SEI-nalus we parse payload and uuid information. A SEI with an invalid header is ignored.
+  if (nalu.nalu_type == NALU_TYPE_SEI && nalu_header_is_valid &&
+      nalu.hashable_data_size > nalu_header_len) {
     const uint8_t *data_end = nalu.hashable_data + nalu.hashable_data_size;
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index f4a441d..c4b100f 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -661,8 +661,9 @@ parse_nalu_info(const uint8_t *nalu_data,
   }
   nalu.hashable_data_size = nalu_data_size - read_bytes;
 
-  // For SEI-nalus we parse payload and uuid information.
-  if (nalu.nalu_type == NALU_TYPE_SEI && nalu.hashable_data_size > nalu_header_len) {
+  // For SEI-nalus we parse payload and uuid information. A SEI with an invalid header is ignored.
+  if (nalu.nalu_type == NALU_TYPE_SEI && nalu_header_is_valid &&
+      nalu.hashable_data_size > nalu_header_len) {
     const uint8_t *data_end = nalu.hashable_data + nalu.hashable_data_size;
     // SEI NALU payload starts after the NALU header.
     const uint8_t *payload = nalu.hashable_data + nalu_header_len;
-- 
2.43.0


From 8341ee3280d2aaf98b50b7c0942df42104c09cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:17 +0000
Subject: [PATCH 41/63] fix: do not use the reference hash of the stream before
 a reset

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index c4b100f..55d40c7 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -258,6 +258,8 @@ gop_info_reset(gop_info_t *gop_info)
   // If a reset is forced, the stored hashes in |hash_list| have no meaning anymore.
   gop_info->list_idx = 0;
   gop_info->has_reference_hash = false;
+  // NAL Units prior to the first I-frame should not be hashed together with a former reference.
+  memset(gop_info->hash_buddies, 0, sizeof(gop_info->hash_buddies));
   gop_info->global_gop_counter_is_synced = false;
 }
 
-- 
2.43.0


From 4153b8284ccd36a6d11cd3a3a9e6b9fa1e1ba530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:25 +0000
Subject: [PATCH 42/63] fix: report lost NAL Units also if they belong to the
 first GOP being validated

---
 lib/src/signed_video_h26x_auth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 1bc6078..83eb105 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -707,7 +707,9 @@ validate_authenticity(signed_video_t *self)
     }
     // If validation was successful, the |global_gop_counter| is in sync.
     self->gop_info->global_gop_counter_is_synced = (valid == SV_AUTH_RESULT_OK);
-    if (valid != SV_AUTH_RESULT_OK) {
+    // If NAL Units have been lost in a GOP that otherwise verifies, the SEI is part of this segment.
+    if (valid != SV_AUTH_RESULT_OK &&
+        !(valid == SV_AUTH_RESULT_OK_WITH_MISSING_INFO && has_valid_nalus)) {
       // We have validated the authenticity based on one single NALU, but failed. A success can only
       // happen if we are at the beginning of the original stream. For all other cases, for example,
       // if we validate the authenticity of an exported file, the first SEI may be associated with a
-- 
2.43.0


From b8b084546df4d4add7394854032bc35290490fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:39 +0000
Subject: [PATCH 43/63] fix: do not keep a public key that could not be parsed

signed_video_set_public_key() copied the key before it was parsed and kept the
copy when parsing failed. Every later call was then refused with
SV_NOT_SUPPORTED, even with a correct key.
---
 lib/src/signed_video_h26x_auth.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 83eb105..fdd9c8e 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1301,6 +1301,12 @@ signed_video_set_public_key(signed_video_t *self, const char *public_key, size_t
     self->has_public_key = true;
 
   SV_CATCH()
+  {
+    // Do not keep a key that cannot be used.
+    free(self->pem_public_key.key);
+    self->pem_public_key.key = NULL;
+    self->pem_public_key.key_size = 0;
+  }
   SV_DONE(status)
 
   return status;
-- 
2.43.0


From 70bcf45a1ec985169845d08b9703319e48073072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:52 +0000
Subject: [PATCH 44/63] fix: do not keep a pointer to a NAL Unit that is gone
 in legacy validation

Items for missing NAL Units may have been added after the last received one upon validation. Then
the NAL Unit was never copied, and its item pointed to memory on the stack.
---
 lib/src/legacy/legacy_h26x_nalu_list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_nalu_list.c b/lib/src/legacy/legacy_h26x_nalu_list.c
index 57d343e..01f4b3e 100644
--- a/lib/src/legacy/legacy_h26x_nalu_list.c
+++ b/lib/src/legacy/legacy_h26x_nalu_list.c
@@ -258,6 +258,8 @@ legacy_h26x_nalu_list_copy_last_item(legacy_h26x_nalu_list_t *list)
   legacy_h26x_nalu_t *copied_nalu = NULL;
   uint8_t *nalu_data_wo_epb = NULL;
   legacy_h26x_nalu_list_item_t *item = list->last_item;
+  // Missing items, which have no |nalu|, may have been added after the item to copy.
+  while (item->prev && item->validation_status == 'M') item = item->prev;
 
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
-- 
2.43.0


From 7b932032879515a74bec4d41b9556ae879bc59af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:38 +0000
Subject: [PATCH 45/63] fix: let a reset also end legacy validation

After a stream of the legacy format had been validated, every later one was taken to be of that
format, also after signed_video_reset().
---
 lib/src/legacy/legacy_h26x_common.c | 10 ++++++++++
 lib/src/signed_video_h26x_common.c  |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index 93ea9af..b7dc6db 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -945,6 +945,16 @@ legacy_sv_reset(legacy_sv_t *self)
     SV_THROW(openssl_init_hash(self->crypto_handle, false));
 
     SV_THROW(legacy_reset_gop_hash(self));
+
+    // The public key is kept upon a reset. Hand it over to |parent|, since the next stream does not
+    // have to be a legacy one.
+    if (self->has_public_key && self->pem_public_key.key) {
+      free(self->parent->pem_public_key.key);
+      self->parent->pem_public_key = self->pem_public_key;
+      self->parent->has_public_key = true;
+      memset(&self->pem_public_key, 0, sizeof(self->pem_public_key));
+      self->has_public_key = false;
+    }
   SV_CATCH()
   SV_DONE(status)
 
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 55d40c7..f9618d7 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1227,6 +1227,9 @@ signed_video_reset(signed_video_t *self)
     DEBUG_LOG("Resetting signed session");
     // Reset session states
     SV_THROW(legacy_sv_reset(self->legacy_sv));
+    // Detect anew, upon the first SEI, if legacy validation should be applied.
+    legacy_sv_free(self->legacy_sv);
+    self->legacy_sv = NULL;
     self->signing_started = false;
     self->sei_generation_enabled = false;
     gop_info_reset(self->gop_info);
-- 
2.43.0


From 797ff524cca0aeea130e2d49acabd7c1e8ea31c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:23 +0000
Subject: [PATCH 46/63] fix: let a failed first validation be repeated once
 only in legacy validation

The flag was never cleared, hence a later GOP that was not authentic was reported as the signature
being present and the result so far was withdrawn.
---
 lib/src/legacy/legacy_h26x_auth.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 7bc9d57..6aabe5b 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -940,6 +940,7 @@ legacy_maybe_validate_gop(legacy_sv_t *self, legacy_h26x_nalu_t *nalu)
       validation_flags->is_first_validation = !validation_flags->signing_present;
 
       if (validation_flags->reset_first_validation) {
+        validation_flags->reset_first_validation = false;
         validation_flags->is_first_validation = true;
         legacy_h26x_nalu_list_item_t *item = self->nalu_list->first_item;
         while (item) {
-- 
2.43.0


From e5e9906d4077c9fc90295ead0170160ba6843b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:58 +0000
Subject: [PATCH 47/63] fix: do not keep validated items in the list forever in
 legacy validation

---
 lib/src/legacy/legacy_h26x_auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 6aabe5b..964c0b6 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -268,8 +268,9 @@ legacy_verify_hashes_with_hash_list(legacy_sv_t *self,
       // Last verified hash is invalid.
       last_used_item->first_verification_not_authentic = true;
       // Give this NALU a second verification because it could be that it is present in the next GOP
-      // and brought in here due to some lost NALUs.
-      last_used_item->need_second_verification = true;
+      // and brought in here due to some lost NALUs. If it is no longer pending it would otherwise be
+      // kept in the |nalu_list| forever.
+      last_used_item->need_second_verification = (last_used_item->validation_status == 'P');
     } else {
       // Last received hash is valid. Check if there are unused hashes in |hash_list|. Note that the
       // index of the hashes span from 0 to |num_expected_hashes| - 1, so if |latest_match_idx| =
-- 
2.43.0


From 5d25d48204a4cd9eee62129aba47a57e02cf1924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:04 +0000
Subject: [PATCH 48/63] fix: do not withdraw the result if the public key has
 changed in legacy validation

---
 lib/src/legacy/legacy_h26x_auth.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 964c0b6..1541d4a 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -576,8 +576,10 @@ legacy_validate_authenticity(legacy_sv_t *self)
       num_expected_nalus = -1;
       num_received_nalus = -1;
       // If validation was tried with the very first SEI in stream it cannot be part at.
-      // Reset the first validation to be able to validate a segment in the middle of the stream.
-      self->validation_flags.reset_first_validation = (self->gop_info->num_sent_nalus == 1);
+      // Reset the first validation to be able to validate a segment in the middle of the stream. If
+      // the public key has changed it is the stream that is not authentic.
+      self->validation_flags.reset_first_validation =
+          (self->gop_info->num_sent_nalus == 1) && !latest->public_key_has_changed;
     }
   }
   if (latest->public_key_has_changed) valid = SV_AUTH_RESULT_NOT_OK;
-- 
2.43.0


From 66414297131fa60b3d6ff82e622b345978ad08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:36 +0000
Subject: [PATCH 49/63] fix: let the result cover every GOP validated at once
 in legacy validation

---
 lib/src/legacy/legacy_h26x_auth.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 1541d4a..4b04510 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -920,6 +920,10 @@ legacy_maybe_validate_gop(legacy_sv_t *self, legacy_h26x_nalu_t *nalu)
     // Keep validating as long as there are pending GOPs.
     bool stop_validating = false;
     while (legacy_has_pending_gop(self) && !stop_validating) {
+      // If more than one GOP is validated, the result should cover all of them.
+      const bool has_previous_result = self->validation_flags.has_auth_result;
+      const SignedVideoAuthenticityResult previous_result = latest->authenticity;
+      const bool public_key_has_changed = has_previous_result && latest->public_key_has_changed;
       // Initialize latest validation.
       latest->authenticity = SV_AUTH_RESULT_NOT_OK;
       latest->number_of_expected_picture_nalus = -1;
@@ -955,6 +959,13 @@ legacy_maybe_validate_gop(legacy_sv_t *self, legacy_h26x_nalu_t *nalu)
           item = item->next;
         }
       }
+      if (has_previous_result) {
+        if (previous_result > SV_AUTH_RESULT_SIGNATURE_PRESENT &&
+            previous_result < latest->authenticity) {
+          latest->authenticity = previous_result;
+        }
+        latest->public_key_has_changed |= public_key_has_changed;
+      }
       self->gop_info->verified_signature_hash = -1;
       self->validation_flags.has_auth_result = true;
 
-- 
2.43.0


From 79e9905a29ec2a49826c42ab6a473efb54a04690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:06 +0000
Subject: [PATCH 50/63] fix: do not report OK if a GOP transition is lost in
 legacy validation

---
 lib/src/legacy/legacy_h26x_auth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 4b04510..17b0016 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -542,7 +542,9 @@ legacy_validate_authenticity(legacy_sv_t *self)
   }
   // Determine if this GOP is valid, but has missing information. This happens if we have detected
   // missed NALUs or if the GOP is incomplete.
-  if (valid == SV_AUTH_RESULT_OK && (num_missed_nalus > 0 && verify_success)) {
+  // A lost GOP transition means that a SEI and an I-frame have been lost.
+  if (valid == SV_AUTH_RESULT_OK &&
+      ((num_missed_nalus > 0 && verify_success) || gop_state->gop_transition_is_lost)) {
     valid = SV_AUTH_RESULT_OK_WITH_MISSING_INFO;
     DEBUG_LOG("Successful validation, but detected missing NALUs");
   }
-- 
2.43.0


From a063960b7bf03dfc9147d783d26093dea35c0654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:57 +0000
Subject: [PATCH 51/63] fix: free the arbitrary data of a SEI with the session

---
 lib/src/legacy/legacy_h26x_common.c | 1 +
 lib/src/signed_video_h26x_common.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_h26x_common.c b/lib/src/legacy/legacy_h26x_common.c
index b7dc6db..5a16dbc 100644
--- a/lib/src/legacy/legacy_h26x_common.c
+++ b/lib/src/legacy/legacy_h26x_common.c
@@ -971,6 +971,7 @@ legacy_sv_free(legacy_sv_t *self)
 
   free(self->gop_info);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index f9618d7..59a7f65 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1283,6 +1283,7 @@ signed_video_free(signed_video_t *self)
   sign_or_verify_data_free(self->sign_data);
   sign_or_verify_data_free(self->verify_data);
   free(self->pem_public_key.key);
+  free(self->arbitrary_data);
 
   free(self);
 }
-- 
2.43.0


From 72333583ebb8bf69bad76e6de228c6166f77bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:34 +0000
Subject: [PATCH 52/63] fix: a Signed Video SEI without any data must not
 trigger an assertion

---
 lib/src/legacy/legacy_h26x_auth.c | 2 +-
 lib/src/signed_video_h26x_auth.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 17b0016..a368567 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -56,7 +56,7 @@ static const char *kLegacyAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES
 static svrc_t
 legacy_decode_sei_data(legacy_sv_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   // Get the last GOP counter before updating.
   uint32_t last_gop_number = self->gop_info->global_gop_counter;
   uint32_t exp_gop_number = last_gop_number + 1;
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index fdd9c8e..859a321 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -77,7 +77,7 @@ static const char *kAuthResultValidStr[SV_AUTH_NUM_SIGNED_GOP_VALID_STATES] = {"
 static svrc_t
 decode_sei_data(signed_video_t *self, const uint8_t *payload, size_t payload_size)
 {
-  assert(self && payload && (payload_size > 0));
+  assert(self && payload);
   DEBUG_LOG("SEI payload size = %zu, exp gop number = %u", payload_size,
       self->gop_info->latest_validated_gop + 1);
   svrc_t status = SV_UNKNOWN_FAILURE;
-- 
2.43.0


From 6c6c766780111d3fd251d1b73af906e2ab223432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:09 +0000
Subject: [PATCH 53/63] fix: a pending validation does not replace an
 accumulated result

---
 lib/src/signed_video_authenticity.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 590976c..787cd6d 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -229,9 +229,11 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
     // Still either pending validation or video has no signature. Update with the result from
     // |latest|.
     accumulated->authenticity = latest->authenticity;
-  } else if (latest->authenticity < accumulated->authenticity) {
+  } else if (latest->authenticity > SV_AUTH_RESULT_SIGNATURE_PRESENT &&
+      latest->authenticity < accumulated->authenticity) {
     // |latest| has validated a worse authenticity compared to what we have validated so far. Update
-    // with this worse result, since that is what should rule the total validation.
+    // with this worse result, since that is what should rule the total validation. Note that a
+    // validation still pending is not a result, hence does not replace one.
     accumulated->authenticity = latest->authenticity;
   }
 
-- 
2.43.0


From 55f283050b74b8697afe129bbecc402672abf7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 54/63] fix: do not copy an older NAL Unit if the latest could
 not be added to the list

---
 lib/src/legacy/legacy_h26x_auth.c | 14 +++++++++-----
 lib/src/signed_video_h26x_auth.c  | 16 ++++++++++------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index a368567..a9e5e02 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1044,11 +1044,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_appended = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(legacy_h26x_nalu_list_append(nalu_list, &nalu));
+    is_appended = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     legacy_update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(legacy_register_nalu(self, nalu_list->last_item));
@@ -1056,11 +1058,13 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  // Need to make a copy of the |nalu| independently of failure, unless it never got into the list.
+  if (is_appended) {
+    svrc_t copy_nalu_status = legacy_h26x_nalu_list_copy_last_item(nalu_list);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 859a321..62c1108 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1193,6 +1193,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
 
   self->accumulated_validation->number_of_received_nalus++;
 
+  bool is_appended = false;
   svrc_t status = SV_UNKNOWN_FAILURE;
   SV_TRY()
     // If there is no |nalu_list| we failed allocating memory for it.
@@ -1201,6 +1202,7 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     // Append the |nalu_list| with a new item holding a pointer to |nalu|. The |validation_status|
     // is set accordingly.
     SV_THROW(h26x_nalu_list_append(nalu_list, &nalu));
+    is_appended = true;
     SV_THROW_IF(nalu.is_valid < 0, SV_UNKNOWN_FAILURE);
     update_validation_flags(&self->validation_flags, &nalu);
     SV_THROW(register_nalu(self, nalu_list->last_item));
@@ -1239,12 +1241,14 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
   SV_CATCH()
   SV_DONE(status)
 
-  // Need to make a copy of the |nalu| independently of failure.
-  svrc_t copy_nalu_status =
-      h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
-  // Make sure to return the first failure if both operations failed.
-  status = (status == SV_OK) ? copy_nalu_status : status;
-  if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  // Need to make a copy of the |nalu| independently of failure, unless it never got into the list.
+  if (is_appended) {
+    svrc_t copy_nalu_status =
+        h26x_nalu_list_copy_last_item(nalu_list, self->validation_flags.hash_algo_known);
+    // Make sure to return the first failure if both operations failed.
+    status = (status == SV_OK) ? copy_nalu_status : status;
+    if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
+  }
 
   free(nalu.nalu_data_wo_epb);
 
-- 
2.43.0


From ac9f43ebdf28fc78945e817d234a35c5aa4ce477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 55/63] fix: return an error if there is no memory for the
 authenticity report

---
 lib/src/legacy/legacy_h26x_auth.c | 5 ++++-
 lib/src/signed_video_h26x_auth.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index a9e5e02..5524a68 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -1089,7 +1089,10 @@ legacy_sv_add_nalu_and_authenticate(legacy_sv_t *self,
     SV_THROW(legacy_sv_add_h26x_nalu(self, nalu_data, nalu_data_size));
     if (self->validation_flags.has_auth_result) {
       legacy_update_authenticity_report(self);
-      if (authenticity) *authenticity = signed_video_get_authenticity_report(self->parent);
+      if (authenticity) {
+        *authenticity = signed_video_get_authenticity_report(self->parent);
+        SV_THROW_IF(!*authenticity, SV_MEMORY);
+      }
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
     }
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 62c1108..851ba31 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1274,7 +1274,10 @@ signed_video_add_nalu_and_authenticate(signed_video_t *self,
     SV_THROW(signed_video_add_h26x_nalu(self, nalu_data, nalu_data_size));
     if (self->validation_flags.has_auth_result) {
       update_authenticity_report(self);
-      if (authenticity) *authenticity = signed_video_get_authenticity_report(self);
+      if (authenticity) {
+        *authenticity = signed_video_get_authenticity_report(self);
+        SV_THROW_IF(!*authenticity, SV_MEMORY);
+      }
       // Reset the timestamp for the next report.
       self->latest_validation->has_timestamp = false;
     }
-- 
2.43.0


From 8889a4c1ae18e4e150913e9c936ee6b085584fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 56/63] fix: reset the public key size if there is no memory
 for the key

---
 lib/src/legacy/legacy_tlv.c | 1 +
 lib/src/signed_video_tlv.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/legacy/legacy_tlv.c b/lib/src/legacy/legacy_tlv.c
index 6d3ba09..ab9fb85 100644
--- a/lib/src/legacy/legacy_tlv.c
+++ b/lib/src/legacy/legacy_tlv.c
@@ -382,6 +382,7 @@ legacy_decode_public_key(legacy_sv_t *self, const uint8_t *data, size_t data_siz
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
diff --git a/lib/src/signed_video_tlv.c b/lib/src/signed_video_tlv.c
index 3cf57bb..5a73c13 100644
--- a/lib/src/signed_video_tlv.c
+++ b/lib/src/signed_video_tlv.c
@@ -744,6 +744,7 @@ decode_public_key(signed_video_t *self, const uint8_t *data, size_t data_size)
 
     if (pem_public_key->key_size != pubkey_size) {
       free(pem_public_key->key);
+      pem_public_key->key_size = 0;
       pem_public_key->key = calloc(1, pubkey_size);
       SV_THROW_IF(!pem_public_key->key, SV_MEMORY);
       pem_public_key->key_size = pubkey_size;
-- 
2.43.0


From cfad237d830141f14820a2e3fee6affc3534560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 57/63] fix: no authenticity report without its version strings

---
 lib/src/signed_video_authenticity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 787cd6d..3f79e5f 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -387,6 +387,10 @@ signed_video_authenticity_report_create()
   if (!auth) return NULL;
 
   authenticity_report_init(auth);
+  if (!auth->version_on_signing_side || !auth->this_version) {
+    signed_video_authenticity_report_free(auth);
+    return NULL;
+  }
 
   return auth;
 }
-- 
2.43.0


From 6c2ea5db91ac9f530ba018b9c5784f26b638b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 58/63] fix: skip NAL Units that could not be copied when
 hashing the stored ones

---
 lib/src/signed_video_h26x_auth.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 851ba31..5aaae46 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1147,7 +1147,7 @@ reregister_nalus(signed_video_t *self)
     if (self->legacy_sv) {
       // Pass in all, but the last one (the SEI), to the created legacy session. Do this
       // without requesting an authenticity report.
-      if (item != nalu_list->last_item) {
+      if (item != nalu_list->last_item && item->nalu) {
         status = legacy_sv_add_nalu_and_authenticate(
             self->legacy_sv, item->nalu->nalu_data, item->nalu->nalu_data_size, NULL);
         if (status != SV_OK) {
@@ -1159,7 +1159,7 @@ reregister_nalus(signed_video_t *self)
       item = item->next;
       continue;
     }
-    if (item->nalu->is_valid <= 0) {
+    if (!item->nalu || item->nalu->is_valid <= 0) {
       item = item->next;
       continue;
     }
-- 
2.43.0


From 3ab8fabcc8dce68c1f51defd944b7176019ed0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 59/63] fix: validate the SEIs waiting for a golden SEI first

---
 lib/src/signed_video_h26x_auth.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index 5aaae46..a890a6a 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1226,7 +1226,11 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
         DEBUG_LOG("No cryptographic information found in SEI. Using default hash algo");
         self->validation_flags.hash_algo_known = true;
       }
-      if (nalu.is_golden_sei) SV_THROW(prepare_golden_sei(self, nalu_list->last_item));
+      // If there are other SEIs waiting for the golden SEI, these are to be validated first.
+      if (nalu.is_golden_sei &&
+          h26x_nalu_list_get_next_sei_item(nalu_list) == nalu_list->last_item) {
+        SV_THROW(prepare_golden_sei(self, nalu_list->last_item));
+      }
 
       // Determine if legacy validation should be applied, that is, if the legacy way of
       // using linked hashes and recursive GOP hash is detected.
-- 
2.43.0


From d846703c3b04abc61d0cc678095f190ccdad62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 60/63] fix: check the signing and verification data when
 creating a session

---
 lib/src/signed_video_h26x_common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/signed_video_h26x_common.c b/lib/src/signed_video_h26x_common.c
index 59a7f65..944b63b 100644
--- a/lib/src/signed_video_h26x_common.c
+++ b/lib/src/signed_video_h26x_common.c
@@ -1180,6 +1180,7 @@ signed_video_create(SignedVideoCodec codec)
     self->sei_epb = true;
     self->signing_started = false;
     self->sign_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->sign_data, SV_MEMORY);
     self->sign_data->hash_size = openssl_get_hash_size(self->crypto_handle);
     // Make sure the hash size matches the default hash size.
     SV_THROW_IF(self->sign_data->hash_size != DEFAULT_HASH_SIZE, SV_EXTERNAL_ERROR);
@@ -1205,6 +1206,7 @@ signed_video_create(SignedVideoCodec codec)
     self->has_public_key = false;
 
     self->verify_data = sign_or_verify_data_create();
+    SV_THROW_IF(!self->verify_data, SV_MEMORY);
     self->verify_data->hash_size = openssl_get_hash_size(self->crypto_handle);
   SV_CATCH()
   {
-- 
2.43.0


From ac50cd21b40575aae4c9421d4017a030ba65b342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 61/63] fix: return an error if there is no memory for the NAL
 Unit to prepend

---
 lib/src/signed_video_h26x_sign.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/signed_video_h26x_sign.c b/lib/src/signed_video_h26x_sign.c
index 48d7bd6..d83e84a 100644
--- a/lib/src/signed_video_h26x_sign.c
+++ b/lib/src/signed_video_h26x_sign.c
@@ -726,6 +726,10 @@ signed_video_get_nalu_to_prepend(signed_video_t *self,
   svrc_t status = get_latest_sei(self, NULL, sei_size);
   if (SV_OK == status && *sei_size != 0) {
     nalu_to_prepend->nalu_data = malloc(*sei_size);
+    if (!nalu_to_prepend->nalu_data) {
+      nalu_to_prepend->nalu_data_size = 0;
+      return SV_MEMORY;
+    }
     nalu_to_prepend->prepend_instruction = SIGNED_VIDEO_PREPEND_NALU;
     status = get_latest_sei(self, nalu_to_prepend->nalu_data, &nalu_to_prepend->nalu_data_size);
   }
-- 
2.43.0


From cfc79fdfdab3cd28fe30feb1b3d8ff6836c21018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:54 +0000
Subject: [PATCH 62/63] fix: check the memory for the attested data

---
 lib/vendors/axis-communications/sv_vendor_axis_communications.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/vendors/axis-communications/sv_vendor_axis_communications.c b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
index 6b5ece3..417e758 100644
--- a/lib/vendors/axis-communications/sv_vendor_axis_communications.c
+++ b/lib/vendors/axis-communications/sv_vendor_axis_communications.c
@@ -409,6 +409,7 @@ verify_axis_communications_public_key(sv_vendor_axis_communications_t *self)
 
     // Create and fill in |signed_data|.
     signed_data = calloc(1, SIGNED_DATA_SIZE);
+    SV_THROW_IF(!signed_data, SV_MEMORY);
     uint8_t *sd_ptr = signed_data;
 
     // Add hash of |binary_raw_data|.
-- 
2.43.0


From 2d36d92baa1268f1bba55f161bdc0fded258c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:22 +0000
Subject: [PATCH 63/63] fix: accumulate the result of a GOP even if the call
 fails afterwards

If adding a NAL Unit fails after a GOP has been validated, for example
since the next SEI cannot be decoded or there is no memory for keeping
the NAL Unit, the result was dropped. A NOT OK was then not part of the
accumulated result.
---
 lib/src/legacy/legacy_h26x_auth.c   | 35 ++++++++++++++++++++---------
 lib/src/signed_video_authenticity.c | 28 ++++++++++++++---------
 lib/src/signed_video_authenticity.h | 10 +++++++++
 lib/src/signed_video_h26x_auth.c    |  4 ++++
 4 files changed, 57 insertions(+), 20 deletions(-)

diff --git a/lib/src/legacy/legacy_h26x_auth.c b/lib/src/legacy/legacy_h26x_auth.c
index 5524a68..1b8c271 100644
--- a/lib/src/legacy/legacy_h26x_auth.c
+++ b/lib/src/legacy/legacy_h26x_auth.c
@@ -40,6 +40,8 @@ legacy_verify_hashes_without_sei(legacy_sv_t *self);
 static void
 legacy_remove_used_in_gop_hash(legacy_h26x_nalu_list_t *nalu_list);
 static void
+legacy_accumulate_latest_validation(legacy_sv_t *self);
+static void
 legacy_update_authenticity_report(legacy_sv_t *self);
 
 #ifdef SIGNED_VIDEO_DEBUG
@@ -1065,6 +1067,10 @@ legacy_sv_add_h26x_nalu(legacy_sv_t *self, const uint8_t *nalu_data, size_t nalu
     status = (status == SV_OK) ? copy_nalu_status : status;
     if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
   }
+  // If a GOP was validated before the failure its result still counts.
+  if (status != SV_OK && self->validation_flags.has_auth_result) {
+    legacy_accumulate_latest_validation(self);
+  }
 
   free(nalu.nalu_data_wo_epb);
 
@@ -1109,6 +1115,24 @@ legacy_get_nalu_list_items(legacy_sv_t *self)
   return self->nalu_list->num_items;
 }
 
+// Copied from signed_video_authenticity.c
+static void
+legacy_accumulate_latest_validation(legacy_sv_t *self)
+{
+  assert(self && self->authenticity);
+
+  // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
+  // authenticity result may not be reliable, hence change status. A NOT OK is kept, since then the
+  // version itself, being part of the SEI, may have been tampered with.
+  if (self->authenticity->latest_validation.authenticity > SV_AUTH_RESULT_NOT_OK &&
+      signed_video_compare_versions(
+          self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
+    self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
+  }
+  // Update the |accumulated_validation| w.r.t. the |latest_validation|.
+  update_accumulated_validation(self->latest_validation, self->accumulated_validation);
+}
+
 // Copied from signed_video_authenticity.c
 static void
 legacy_update_authenticity_report(legacy_sv_t *self)
@@ -1126,18 +1150,9 @@ legacy_update_authenticity_report(legacy_sv_t *self)
   self->latest_validation->validation_str = validation_str;
   DEBUG_LOG("Legacy Validation statuses           = %s", validation_str);
 
-  // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
-  // authenticity result may not be reliable, hence change status. A NOT OK is kept, since then the
-  // version itself, being part of the SEI, may have been tampered with.
-  if (self->authenticity->latest_validation.authenticity > SV_AUTH_RESULT_NOT_OK &&
-      signed_video_compare_versions(
-          self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
-    self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
-  }
   // Remove validated items from the list.
   const unsigned int number_of_validated_nalus = legacy_h26x_nalu_list_clean_up(self->nalu_list);
-  // Update the |accumulated_validation| w.r.t. the |latest_validation|.
-  update_accumulated_validation(self->latest_validation, self->accumulated_validation);
+  legacy_accumulate_latest_validation(self);
   // Only update |number_of_validated_nalus| if the video is signed. Currently, unsigned videos are
   // validated (as not OK) since SEIs are assumed to arrive within a GOP. From a statistics point of
   // view, that is not strictly not correct.
diff --git a/lib/src/signed_video_authenticity.c b/lib/src/signed_video_authenticity.c
index 3f79e5f..fb71e48 100644
--- a/lib/src/signed_video_authenticity.c
+++ b/lib/src/signed_video_authenticity.c
@@ -254,6 +254,23 @@ update_accumulated_validation(const signed_video_latest_validation_t *latest,
   }
 }
 
+void
+accumulate_latest_validation(signed_video_t *self)
+{
+  assert(self && self->authenticity);
+
+  // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
+  // authenticity result may not be reliable, hence change status. A NOT OK is kept, since then the
+  // version itself, being part of the SEI, may have been tampered with.
+  if (self->authenticity->latest_validation.authenticity > SV_AUTH_RESULT_NOT_OK &&
+      signed_video_compare_versions(
+          self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
+    self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
+  }
+  // Update the |accumulated_validation| w.r.t. the |latest_validation|.
+  update_accumulated_validation(self->latest_validation, self->accumulated_validation);
+}
+
 void
 update_authenticity_report(signed_video_t *self)
 {
@@ -273,18 +290,9 @@ update_authenticity_report(signed_video_t *self)
   self->latest_validation->validation_str = validation_str;
   DEBUG_LOG("Validation statuses           = %s", validation_str);
 
-  // Check for version mismatch. If |version_on_signing_side| is newer than |this_version| the
-  // authenticity result may not be reliable, hence change status. A NOT OK is kept, since then the
-  // version itself, being part of the SEI, may have been tampered with.
-  if (self->authenticity->latest_validation.authenticity > SV_AUTH_RESULT_NOT_OK &&
-      signed_video_compare_versions(
-          self->authenticity->this_version, self->authenticity->version_on_signing_side) == 2) {
-    self->authenticity->latest_validation.authenticity = SV_AUTH_RESULT_VERSION_MISMATCH;
-  }
   // Remove validated items from the list.
   const unsigned int number_of_validated_nalus = h26x_nalu_list_clean_up(self->nalu_list);
-  // Update the |accumulated_validation| w.r.t. the |latest_validation|.
-  update_accumulated_validation(self->latest_validation, self->accumulated_validation);
+  accumulate_latest_validation(self);
   // Only update |number_of_validated_nalus| if the video is signed. Currently, unsigned videos are
   // validated (as not OK) since SEIs are assumed to arrive within a GOP. From a statistics point of
   // view, that is not strictly not correct.
diff --git a/lib/src/signed_video_authenticity.h b/lib/src/signed_video_authenticity.h
index 50f0bc1..07aed72 100644
--- a/lib/src/signed_video_authenticity.h
+++ b/lib/src/signed_video_authenticity.h
@@ -86,6 +86,16 @@ allocate_memory_and_copy_string(char **dst_str, const char *src_str);
 void
 update_authenticity_report(signed_video_t *self);
 
+/**
+ * @brief Updates the accumulated validation with the latest one
+ *
+ * Takes a version mismatch into account. The list of NALUs is kept as is.
+ *
+ * @param self Pointer to the Signed Video session
+ */
+void
+accumulate_latest_validation(signed_video_t *self);
+
 /**
  * @brief Updates a signed_video_accumulated_validation_t struct
  *
diff --git a/lib/src/signed_video_h26x_auth.c b/lib/src/signed_video_h26x_auth.c
index a890a6a..3b8aef0 100644
--- a/lib/src/signed_video_h26x_auth.c
+++ b/lib/src/signed_video_h26x_auth.c
@@ -1253,6 +1253,10 @@ signed_video_add_h26x_nalu(signed_video_t *self, const uint8_t *nalu_data, size_
     status = (status == SV_OK) ? copy_nalu_status : status;
     if (status != SV_OK) nalu_list->last_item->validation_status = 'E';
   }
+  // If a GOP was validated before the failure its result still counts.
+  if (status != SV_OK && self->validation_flags.has_auth_result) {
+    accumulate_latest_validation(self);
+  }
 
   free(nalu.nalu_data_wo_epb);
 
-- 
2.43.0

