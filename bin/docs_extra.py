# Further properties (executed by docs.py).
p('P22', 'The signing plugins return every hash\'s own signature, in order, per session',
  'Through the signing plugin interface every hash that was accepted for signing is answered with exactly one result, its own signature '
  'made with the key given, or an error, in the order of the calls and only to the session it belongs to; nothing is lost, repeated or '
  'handed to another session. A full buffer is answered by refusing the hash, a session can be set up, used and torn down at any time '
  'whatever the other sessions do, and calls terminate. This holds under all schedules of the signing thread and the callers, for '
  'local and central signing threads and for the plugin without threads.',
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings of signing threads and callers, all sequences of plugin calls, all failing signatures, full buffers and failures to start a thread',
  'The unit tests are run with the plugin without threads; with threads, a test samples one schedule.',
  [TH, U, 'lib/src/includes/signed_video_signing_plugin.h'],
  M(('signing thread', TH + ': signing_worker_thread, local_worker_thread, central_worker_thread'), ('buffers', TH + ': in/out buffers'),
    ('sessions', TH + ': sv_signing_plugin_session_setup / _teardown')),
  'SigningPlugin.tla has the buffers and signing threads; invariants InOrder, NothingLost, Bounded, NoStrangers and liveness Served of SPSystem on '
  'all interleavings in bounds; the real plugin runs under a scheduler that follows TLC behaviours and random schedules, and the recorded '
  'calls must be explained by the specification (SPTrace). Precondition: sv_signing_plugin_exit only when no other call is ongoing.',
  technique='TLA+ specification (spec/SigningPlugin.tla) model checked with TLC (spec/SPSystem.tla, safety and liveness); conformance: behaviours '
  'enumerated by TLC and random schedules are forced on the real plugin, and the recorded calls are matched with the specification by TLC (spec/SPTrace.tla)',
  observe=['return values of the plugin interface', 'signatures', 'sanitizer reports'])
V = 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'
p('P24', 'The verdict on the origin of the public key is true',
  'A report says that the public key is validated only if the key in the stream was attested with a key certified by a chain up to the vendor\'s '
  'trusted root, for the chip of that certificate, the serial number certified is the one in the product information, and the stream comes from '
  'the vendor; an attested stream, untouched, is always told so. A verdict that the key is not valid is final, a changed key, attestation or '
  'chain never gives a positive one, without an attestation the verdict is that validation is not feasible, and no vendor data, however '
  'malformed, leads to a memory error.',
  ['inputs', 'histories', 'configurations'], 'all combinations of attestation, certificate chain, public key, serial number and manufacturer, all orders and changes of them in a stream, malformed vendor data, resets',
  'The unit tests validate with one attestation and one chain, and no test has a changed one.',
  [V, T, A], M(('vendor verdict', V + ': verify_axis_communications_public_key, get_axis_communications_supplemental_authenticity'),
               ('vendor data', V + ': encode_/decode_axis_communications_handle'), ('product information', T)),
  'Vendor.tla has what chains and reports prove, symbolically, and the vendor state; VendorSystem enumerates all short histories of SEIs with any '
  'of them: OkIsTrue, HonestIsOk, NoEvidence, NeverRecovers, StaysInvalid, OtherKeyIsNotOk; every behaviour is replayed with real certificates and '
  'reports made for the purpose (keys/att) and an own trusted root, and mon.origin judges the reports from ghost data.')
C = 'lib/src/signed_video_h26x_common.c'
p('P25', 'No bytes make the validating side misbehave or accept what was not signed',
  'Whatever bytes are handed to a validating session, in whatever order and length (SEIs with wrong lengths, missing, repeated or unknown tags, '
  'cut or damaged NAL Units, data as of old signers, NAL Units of a few bytes), the call returns one of the documented codes and a report that is '
  'well formed, nothing is read or written outside the data given, and no other session is affected. Pictures that were not signed are never '
  'reported as authentic because of such data.',
  ['inputs', 'histories'], 'all byte sequences: malformed, truncated, forged and legacy formed SEIs and NAL Units in any order with intact ones, both codecs, all configurations',
  'The unit tests tamper with a few well formed SEIs; none has malformed content, and reads outside the data go unnoticed without a sanitizer.',
  [C, T, A, 'lib/src/legacy/legacy_tlv.c', 'lib/src/legacy/legacy_h26x_common.c'],
  M(('NAL Unit parsing', C + ': parse_nalu_info, remove_epb_from_sei_payload'), ('TLV decoding', T + ': tlv_decode, tlv_find_tag, decode_*'),
    ('legacy', 'lib/src/legacy/legacy_tlv.c: legacy_tlv_decode')),
  'SVSystem with all manipulations has the acceptance guarantees; on the code (built with a sanitizer) families of damaged bytes are fed among intact '
  'NAL Units: from the first such bytes on, SVTrace judges codes, reports and the guarantees (mon.foreign, mon.segment, mon.missing, mon.list) with ghost '
  'data, and a second session with the untouched stream has to be as specified exactly.',
  observe=['return codes', 'authenticity reports', 'sanitizer reports', 'termination'])
p('P26', 'Every NAL Unit header is taken for what the standard says, on both sides',
  'For each header of H.264 and H.265, complete or not, the signing and the validating side agree with the standard on what the NAL Unit is: '
  'slices of pictures (as the library covers them) are signed, and changing, removing or repeating one is detected; all others, also those with '
  'an invalid header, are neither signed nor judged, and adding, changing or removing them changes no verdict. Only a SEI with a valid header '
  'counts as a SEI, and a new GOP starts with the first slice of an intra picture only.',
  ['inputs'], 'all header values of H.264 and H.265, first slice or not, of any length, at any place in a stream; with start codes of 4, 3 and 0 bytes and trailing zeros',
  'The unit tests use one header per kind of NAL Unit.',
  [C, 'lib/src/signed_video_h26x_sign.c', A],
  M(('header', C + ': parse_h264_nalu_header, parse_h265_nalu_header, parse_nalu_info'), ('list', 'lib/src/signed_video_h26x_nalu_list.c: get_validation_status_from_nalu')),
  'Nalu.tla has the tables of the standards; NaluSystem puts every header at several places of a signed stream, changed, dropped or repeated: Protected, '
  'Harmless, Answered; TLC\'s cases are replayed on the code, every header at least once, and random streams with odd headers and SEIs with other headers.')
p('P27', 'Streams signed in the old format are judged truthfully, and only those',
  'A stream signed by a library before v2.0 (each SEI covers the GOP before it and comes in front of the next I-frame) is recognised by its SEIs and '
  'judged GOP by GOP: OK only if every picture of the GOPs covered was received unchanged, in order and with a valid signature; a manipulated, lost, added, '
  'moved or repeated picture or SEI leads to NOT OK or OK WITH MISSING INFO of the GOP, later GOPs do not change a result once told, and the report '
  'covers all GOPs validated since the last one. After a reset the session judges any stream, old or new format, as a fresh one does.',
  ['inputs', 'histories'], 'all streams of an old signer (both codecs, both levels, recurrence of tags, delayed or lost SEIs) with any manipulation, and any '
  'sequence of such streams, streams of the current format and resets',
  'The unit tests have a handful of canned legacy streams with single manipulations at fixed places, and none with resets in between.',
  ['lib/src/legacy/legacy_h26x_auth.c', 'lib/src/legacy/legacy_h26x_nalu_list.c', 'lib/src/legacy/legacy_h26x_common.c', A],
  M(('recognition', C + ': parse_nalu_info, ' + A + ': signed_video_add_nalu_and_authenticate'),
    ('validation', 'lib/src/legacy/legacy_h26x_auth.c: maybe_validate_gop, validate_authenticity, compute_gop_hash, verify_hashes_with_hash_list'),
    ('list', 'lib/src/legacy/legacy_h26x_nalu_list.c'), ('reset', 'lib/src/legacy/legacy_h26x_common.c: legacy_sv_reset')),
  'Legacy.tla has the legacy validation; SVSystem with Formats = {"leg"} has a legacy signer, manipulations and late SEIs in transit: OnlySignedIsValid, '
  'OkMeansSegment, MissingMeansSigned, AuthenticIsOk and the action property VerdictStays; TLC\'s behaviours and random streams of a legacy signer '
  '(written in the driver, with real signatures) are replayed on the code and compared call by call.')

p('P28', 'A session gives back what it acquires, and does not grow with the stream',
  'When a session is freed nothing it has allocated, itself or through OpenSSL, is left, whatever it was used for: any configuration, stream, damaged '
  'or forged SEI, failing call, reset or switch to the old format before. And while it lives it holds no more than what waits: the NAL Units not yet '
  'validated and the SEIs not yet signed or fetched. In a stream that goes on for ever in the same way, memory does not grow.',
  ['inputs', 'histories'], 'all histories of a session, of any length',
  'The unit tests run each session for a few GOPs and do not look at memory; a leak is in the path one of them does not take (an error, an odd tag).',
  [C, A, S, 'lib/src/signed_video_tlv.c', 'lib/src/signed_video_h26x_nalu_list.c', 'lib/src/legacy/legacy_h26x_common.c', 'lib/src/signed_video_openssl.c'],
  M(('teardown', C + ': signed_video_free, ' + 'lib/src/legacy/legacy_h26x_common.c: legacy_sv_free'),
    ('list', 'lib/src/signed_video_h26x_nalu_list.c: h26x_nalu_list_clean_up, h26x_nalu_list_free_items'),
    ('decoders', 'lib/src/signed_video_tlv.c: decode_*'), ('crypto', 'lib/src/signed_video_openssl.c: openssl_free_handle')),
  'The driver counts live allocations, of the library and of OpenSSL on its behalf. SVTrace compares: at the same point of a recurring history, with the '
  'specification holding the same (items of the validator, SEIs of the signer), the count is never larger than before; and every further run of a '
  'scenario, of any of the other families, leaves nothing behind.')

p('P29', 'Running out of memory is an error code, never a crash or a better verdict',
  'If an allocation of the library fails, in whatever call and history, the call answers with a documented error code, or does '
  'exactly what it would have done otherwise; a report the caller is to get is never left out silently. From then on the session may answer with errors '
  'or question an authentic stream, but it never says of anything manipulated that it is authentic, every later call returns, nothing is left '
  'when the session is freed, and no other session is affected (that NAL Units are missing may go untold, as the code documents).',
  ['fault points', 'histories', 'inputs'], 'every allocation of the library at every point of any history of signing and validating sessions',
  'No unit test lets an allocation fail; each of the roughly 60 allocation sites has its own error path, and what matters is the next call on the session.',
  [C, A, S, 'lib/src/signed_video_authenticity.c', 'lib/src/signed_video_h26x_nalu_list.c', 'lib/src/signed_video_tlv.c', 'lib/src/legacy/legacy_h26x_auth.c',
   'lib/vendors/axis-communications/sv_vendor_axis_communications.c'],
  M(('add', A + ': signed_video_add_h26x_nalu, reregister_nalus'), ('create', C + ': signed_video_create'),
    ('reports', 'lib/src/signed_video_authenticity.c: signed_video_authenticity_report_create'),
    ('list', 'lib/src/signed_video_h26x_nalu_list.c: h26x_nalu_list_append, h26x_nalu_list_copy_last_item')),
  'Scenarios of the other families with up to three allocations of the library made to fail (--wrap). SVTrace, at the call that was hit: it says so with a '
  'documented code, and from there the session is judged by the guarantees only; or it does what the specification predicts. All other sessions stay '
  'predicted. Several runs in a row leave no memory behind. Allocations inside OpenSSL do not fail: OpenSSL 3.0 itself crashes on some of them.')
