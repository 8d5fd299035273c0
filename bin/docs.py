#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'lib/src/signed_video_h26x_auth.c'
S = 'lib/src/signed_video_h26x_sign.c'
C = 'lib/src/signed_video_h26x_common.c'
L = 'lib/src/signed_video_h26x_nalu_list.c'
T = 'lib/src/signed_video_tlv.c'
R = 'lib/src/signed_video_authenticity.c'
O = 'lib/src/signed_video_openssl.c'
U = 'lib/plugins/unthreaded-signing/plugin.c'
TH = 'lib/plugins/threaded-signing/plugin.c'
VE = 'lib/vendors/axis-communications/sv_vendor_axis_communications.c'


def M(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]


TLA = ('TLA+ specification (spec/Signer.tla, spec/Validator.tla) model checked with TLC; conformance: behaviours enumerated by TLC and '
       'generated scenarios are run on the real library, and the recorded calls are replayed on the specification by TLC (spec/SVTrace.tla)')

P = []


def p(pid, title, statement, over, text, why, files, mech, note, level='model_checking', technique=TLA, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe or ['return codes', 'authenticity report', 'fetched SEIs'],
                               hook_needed=None), _note=note, _level=level, _technique=technique))


FEW = 'The unit tests sample a handful of hand-written streams ("IPPIPPI") and one manipulation at a time; '

p('P01', 'An untouched signed stream is always authenticated as OK',
  'When every NAL Unit and SEI that the signing side produced is handed to a validating session in order and unmodified, no report ever '
  'questions any of it: each report from the first GOP SEI on says OK for the latest and for the accumulated result, every picture that has '
  'been judged is judged valid, no error is returned, and no public key change is signalled. This holds for every GOP structure, SEI '
  'placement and delay (up to the next GOP), configuration, codec and partition of NAL Units into parts; with golden SEIs the golden SEI is '
  'the first SEI.',
  ['histories', 'configurations', 'inputs'], 'all streams of GOPs, all positions at which SEIs are inserted, all signing configurations',
  FEW + 'they cannot cover every combination of GOP structure, SEI position and configuration.',
  [A, S, C, L, T, O], M(('GOP validation loop', A + ': maybe_validate_gop'), ('GOP hash', S + ': add_nalu_part_for_signing'), ('NALU list', L)),
  'Invariants AuthenticIsOk and AuthenticIsTold of SVSystem on all streams of the bounded shapes; every one of them and generated larger '
  'streams run on the library.')
p('P02', 'Nothing that was not signed is ever accepted as authentic',
  'Without access to the signing key, no modification, insertion or substitution of NAL Units makes a validating session judge a picture as '
  'valid that the owner of the key did not sign, or report OK (or OK with missing information) while such a picture was among those judged. '
  'If the latest result is OK, all pictures it covers are signed ones, at either authenticity level.',
  ['inputs', 'histories', 'configurations'], 'all manipulations of pictures in a signed stream by someone without the private key',
  FEW + 'an attack needing two manipulations, or one in relation to a SEI or GOP border, is not sampled.',
  [A, L, O, T], M(('hash verification', A + ': verify_hashes_with_hash_list, verify_hashes_with_gop_hash'), ('document hash', S)),
  'Invariants OnlySignedIsValid, OkMeansSegment and MissingMeansSigned of SVSystem with an attacker that modifies, inserts and forges; the '
  'same invariants are evaluated as monitors on recorded runs.')
p('P03', 'OK means one unbroken, correctly ordered part of one signed stream',
  'If pictures, whole GOPs or SEIs are dropped, repeated, reordered, rewound, or spliced together from streams or sessions signed with the '
  'same key, the accumulated result is never OK over pictures that are not one contiguous part, in order, of one signed stream. '
  'Loss is reported as NOT OK or as OK with missing information, never as OK.',
  ['inputs', 'histories', 'fault_sequences'], 'all losses, repetitions, permutations and splices of a signed stream',
  FEW + 'cuts, splices and losses in every position relative to I-frames and SEIs are not enumerable by hand.',
  [A, L], M(('link hash', A + ': verify_linked_hash'), ('GOP counter', A + ': detect_lost_sei'), ('missing items', L + ': h26x_nalu_list_add_missing')),
  'Invariant OkMeansSegment of SVSystem with an attacker that drops, replays, swaps, skips, rewinds and splices; monitored on recorded runs.')
p('P04', 'A SEI that fails verification never leads to an OK result',
  'If any signed content of a SEI is altered, its signature is altered, malformed or missing, or it is signed with another key than the one '
  'in use, no GOP it is responsible for is reported OK. '
  'A public key in a SEI that differs from the one in use is reported as changed, in the latest and in the accumulated report, and the '
  'content it authenticates is not passed off as an unbroken OK stream.',
  ['inputs', 'histories'], 'all alterations of SEIs: every field, the signature (also undecodable ones), keys, hash lists, re-signing with a foreign key',
  'The tests alter a few bytes of one SEI. Alterations that keep the SEI decodable, re-signed SEIs and combinations with lost NAL Units are not reached.',
  [A, O, T], M(('signature verification', O + ': openssl_verify_hash'), ('three-valued outcome', A + ': validate_authenticity'), ('key change', T + ': decode_public_key')),
  'Attackers corrupt, forge and splice in SVSystem; scenario family with every SEI field mutated, re-signed and undecodable signatures.')
p('P05', 'Exactly the affected NAL Units are pointed out, and the counts add up',
  'With authenticity level FRAME, the report points out precisely the NAL Units that were modified, inserted or are missing within a GOP '
  'whose SEI verifies: unaffected pictures in it remain valid. In every report the validity string has one position per received or missing '
  'NAL Unit, and the numbers of expected, received and pending NAL Units agree with the stream.',
  ['inputs', 'histories', 'configurations'], 'all manipulations and losses, one or several per GOP, at both levels',
  FEW + 'the localisation is asserted for single manipulations in fixed positions only.',
  [A, L], M(('hash list matching', A + ': verify_hashes_with_hash_list'), ('counts', A + ': compute_gop_hash / set_validation_status')),
  'Validator.tla predicts the whole report, position by position; every manipulated behaviour is compared, and the list length is monitored.')
p('P06', 'The accumulated report is the sound summary of the whole session',
  'The accumulated result is never better than any result given for a validated GOP so far: a negative result stays, and a key change once '
  'seen stays. The accumulated numbers of received, validated and pending NAL Units always add up, and first and last '
  'timestamps are those of the first and latest validated GOP.',
  ['histories', 'inputs'], 'all sequences of validated, manipulated, unsigned and reset streams',
  FEW + 'the accumulated report is checked at the end of a few of them.',
  [R, A], M(('accumulation', R + ': update_accumulated_validation'), ('timestamps', A + ': accumulated timestamps')),
  'Validator.tla predicts every accumulated field after every NAL Unit.')
p('P07', 'Unsigned streams are reported as not signed, and non-picture NALUs ignored',
  'A stream without Signed Video SEIs is reported as not signed (never as OK or NOT OK), however long it is. '
  'NAL Units that are not pictures (parameter sets, AUDs, foreign SEIs, unspecified types) are neither signed nor judged, wherever they are '
  'inserted or removed, and never change the result for the pictures.',
  ['inputs', 'histories'], 'all streams without signatures; all insertions and removals of non-picture NAL Units in signed streams',
  FEW + 'non-picture NAL Units are tested in one or two positions.',
  [A, C, L], M(('classification', C + ': parse_nalu_info'), ('unsigned validation', A + ': maybe_validate_gop')),
  'Validator.tla and Signer.tla ignore them by construction; families with unsigned streams and noise in any position.')
p('P08', 'After a reset a session behaves as a new one with the same configuration',
  'After signed_video_reset() a validating session judges the next stream as a fresh session would (a public key set by the user, and the '
  'key, the attestation and the verdict on them already received, are kept), and nothing of the stream before the reset influences a later result. '
  'After a reset of a signing session the next stream is signed as one of its own (not linked to the former), SEIs not fetched yet can still '
  'be fetched, and an unfinished NAL Unit is forgotten.',
  ['histories', 'crash_points'], 'a reset at every point of every stream, signing and validating',
  'The tests reset at one or two points.', [R, C, S, A], M(('reset', C + ': signed_video_reset'), ('gop state', A + ': gop_state_reset')),
  'VReset and SReset of the specification; resets at random points of generated streams, everything compared afterwards.')
p('P09', 'A stream can be validated from any I-frame on',
  'If validation starts at an arbitrary I-frame of a signed stream (or at a SEI directly in front of one), as for an exported part of a '
  'recording, the part is never reported as NOT OK or as containing invalid pictures, and from the second complete GOP on whose public key '
  'is known it is reported OK. Stopping anywhere does not turn what was reported into something else.',
  ['histories', 'configurations'], 'all cut points at I-frames, all key recurrences, SEI delays up to one GOP',
  'The tests cut a few streams in fixed positions.', [A, L, T], M(('first validation', A + ': validate_authenticity'), ('key recurrence', S)),
  'Invariants SegmentIsNotQuestioned and SegmentIsTold of SVSystem; monitors on recorded runs.')
p('P10', 'Validation terminates without crash or memory error on any manipulated stream',
  'Handing any sequence of NAL Units to a validating session, with pictures and Signed Video SEIs removed, repeated, reordered, truncated '
  'streams, altered SEI contents and resets in between, returns from every call in bounded time, without memory errors. '
  'An undecodable SEI is answered with an error code or a negative result and the session can still be used.',
  ['inputs', 'histories', 'fault_sequences'], 'all manipulated streams up to the bounds, under the address sanitizer',
  'Crashes and endless loops need particular histories (for example a SEI from the future being the oldest pending one).',
  [A, L, T, C], M(('loop progress', A + ': maybe_validate_gop'), ('TLV bounds', T + ': decode_tlv_header'), ('list', L)),
  'The validation loop of the specification terminates for all behaviours; the library is built with the address sanitizer and each scenario '
  'has a time limit.')
p('P11', 'Signer and validator agree on the hash algorithm whatever it is',
  'A stream signed with any supported hash algorithm is authenticated as OK by a validator that learns the algorithm from the stream, also if the '
  'public key is known in advance, if the SEI with the algorithm arrives late, or after a reset. An unknown algorithm in a SEI is '
  'rejected, and never replaced by another one silently; setting an unsupported algorithm fails and leaves the former in use.',
  ['configurations', 'histories', 'inputs'], 'all algorithms, key types, positions of the first SEI with the algorithm',
  'The tests use two algorithms in one stream structure.', [O, A, T, S], M(('crypto info TLV', T + ': decode_crypto_info'), ('late hashing', A + ': reregister_nalus')),
  'The document hash, GOP hash and picture hashes are recomputed by the driver with the algorithm of the scenario and compared symbolically.')
p('P12', 'Product information, timestamps and versions arrive as they were set',
  'Product information, timestamps and the software version set or used on the signing side are found, unmodified, in the report of '
  'every validated GOP they belong to. Each string is delivered as set, up to the documented maximum length, for every content and any '
  'combination of empty and missing strings, and the timestamp reported is the one given with the I-frame that triggered the SEI.',
  ['inputs', 'configurations', 'histories'], 'all strings (lengths 0 to over 255, any bytes), all timestamps, all combinations',
  'The tests use one set of strings and a few timestamps.', [T, R, S], M(('product info TLV', T + ': encode_product_info/decode_product_info'), ('general TLV', T + ': encode_general/decode_general')),
  'The specification carries the values; the SEI as parsed by the driver and the report are compared after each step.')
p('P13', 'A stream signed with a newer version is never silently judged',
  'If the version that signed a stream is newer than the one validating it, the result is VERSION MISMATCH where it would be OK, both '
  'versions are reported, and an older or equal version is judged normally. '
  'signed_video_compare_versions() orders well-formed versions numerically by major, minor and patch, is antisymmetric, and rejects anything else.',
  ['inputs', 'histories'], 'all versions of the signing side; all pairs of version strings',
  'The tests compare a few pairs of versions.', [C, A, T], M(('version check', C + ': signed_video_compare_versions'), ('report', A + ': update_authenticity_report')),
  'Versions in re-signed SEIs and pairs of version strings are generated; CmpVersion and the report are specified.')
p('P14', 'Every picture is covered by exactly one SEI, in order, without holes',
  'The SEIs fetched from a signing session, in order, cover every picture added, each exactly once and bound to its predecessors: GOP counters '
  'increase by one, each SEI carries the number of NAL Units and the hash over those of its GOP, links to the preceding GOP, and is correctly '
  'signed. At end of stream the SEI covers what remained.',
  ['histories', 'configurations'], 'all sequences of calls to the signing API', FEW + 'SEIs are rarely inspected.',
  [S, C, O], M(('hashing', C + ': hash_and_add'), ('SEI generation', S + ': generate_sei_nalu'), ('end of stream', S + ': signed_video_set_end_of_stream')),
  'Invariants EveryPictureIsSigned, NothingForgotten, NumbersAgree, ListIsWhatIsSigned, Linked of SignerSystem on all call sequences up to the '
  'depth; all of them run on the library and every SEI is parsed, its hashes recomputed and its signature verified by the driver.')
p('P15', 'SEIs are delivered once, in order, with the right number pending',
  'Every generated SEI is handed out exactly once, complete and signed, in the order of generation, whichever of the calls for fetching are '
  'interleaved with adding NAL Units, and the number of pending SEIs is right. A query for the size changes nothing; a SEI is handed out '
  'only in front of a primary slice or when none is peeked at; while SEIs are waiting to be fetched, adding further NAL Units '
  'is refused and changes nothing.',
  ['histories', 'schedules'], 'all interleavings of adding, querying, fetching and prepending',
  'The tests fetch at once, after each NAL Unit.', [S], M(('SEI buffer', S + ': signed_video_get_sei'), ('refusal', S + ': prepare_for_nalus_to_prepend')),
  'Invariants Fifo and Signed of SignerSystem; return codes, sizes, pending numbers and SEIs compared.')
p('P16', 'Partition into parts, start codes and trailing zeros do not matter',
  'Adding a NAL Unit in any number of parts, with a three or four byte start code or none, and with trailing zeros (also if these are '
  'split over parts), yields the same SEIs and, when validated, the same reports, as adding it in one piece. '
  'A part that is rejected leaves no trace.',
  ['inputs', 'histories'], 'all partitions with the slice header in the first part, all start codes, all numbers of trailing zeros',
  'The tests split one stream in two equal parts.', [S, C], M(('parts', S + ': signed_video_add_nalu_part_for_signing_with_timestamp'), ('trailing zeros', C + ': parse_nalu_info')),
  'The specification does not know parts, so any difference they make is a difference to it.')
p('P17', 'Configuration and API calls are honoured, or refused without side effects',
  'Every setter either takes effect as documented or returns an error and leaves the session as it was; what can only be set before a '
  'session starts is refused afterwards with SV_NOT_SUPPORTED, and possible again after a reset where so documented. Invalid values and '
  'calls in the wrong state are answered with the documented error code, never by a corrupted session.',
  ['histories', 'configurations', 'inputs'], 'all sequences of configuration, signing and reset calls with valid and invalid values',
  'The tests check each refusal once, not that the session is intact afterwards.', [S, C, R, O], M(('setters', S + ': signed_video_set_*'), ('key', O)),
  'Signer.tla gives return code and effect of each setter in each state.')
p('P18', 'Public key and recurrent data are sent as configured; golden SEIs stand alone',
  'The public key, product information and hash algorithm are in the first SEI and then with the configured recurrence; the key is '
  'left out if so configured. With golden SEIs they are in golden SEIs only, and a golden SEI is recognised as such, verifies '
  'on its own, covers no pictures, and is needed only once, as the first SEI, at any position in the stream.',
  ['configurations', 'histories'], 'all recurrences, golden SEIs at any point, key in or out of band',
  'The tests check one or two recurrences.', [S, A, T], M(('recurrence', S + ': has_recurrent_data'), ('golden SEI', S + ': signed_video_generate_golden_sei, ' + A + ': prepare_golden_sei')),
  'Invariant FirstHasKey of SignerSystem; tags of every SEI compared; golden SEIs in any position validated.')
p('P19', 'SEI size limits only change the level, never the protection',
  'A GOP whose SEI would exceed the configured maximum size, or that has more NAL Units than the hash list can hold, is signed '
  'without a hash list, and otherwise as any other; SEIs that do fit keep their list, and the next GOP is not affected. Such streams are '
  'authenticated as OK, and manipulations of them are detected.',
  ['configurations', 'histories', 'inputs'], 'all maximum sizes and GOP lengths around the limits',
  'The tests use one limit.', [S, C], M(('fallback', S + ': generate_sei'), ('overflow', C + ': add to hash list')),
  'Invariant Capped of SignerSystem with tiny limits; GOPs around the list capacity and size limits run on the library.')
p('P20', 'A fetched SEI is a well-formed NAL Unit that any decoder can carry',
  'Every SEI handed out is a complete user-data-unregistered SEI NAL Unit of the codec with a start code, correct payload size, UUID and stop bit; with '
  'emulation prevention on, no start code is emulated within it and removing the prevention bytes gives the signed bytes, with it off, there '
  'are none. The payload offset and size reported for it are exact, and it consists of known TLVs only, within its size.',
  ['inputs', 'configurations'], 'all SEIs of all configurations and contents',
  'The tests inspect the SEI format once.', [S, T, C], M(('SEI writing', S + ': write_payload / complete_sei_nalu'), ('EPB', T + ': write_byte')),
  'The driver has its own SEI parser; format, emulation, sizes and offset of every SEI are compared with the specification.')
p('P21', 'Late, bunched or failed signatures never break the pairing of SEIs',
  'If the signing plugin delivers signatures late, several at a time, or reports failures, each SEI that is handed out carries the '
  'signature of its own content; a SEI whose signing failed is dropped and the error reported, and all other SEIs are delivered in order. '
  'The session can be continued after any such fault.',
  ['fault_sequences', 'schedules', 'histories'], 'all delays and failures of the signing plugin, interleaved with all API calls',
  'The tests have no plugin that fails or delays.', [S], M(('pairing', S + ': get_signature_complete_sei_and_add_to_prepend'), ('dropping', S + ': complete_sei_nalu_and_add_to_prepend')),
  'SignerSystem with hold, release, fail and signfail as environment actions; the same sequences on the library with a plugin under test control.')
p('P23', 'Sessions are independent of each other',
  'Any number of signing and validating sessions can be used at the same time in one process, interleaved call by call, and each '
  'behaves as if it was alone: keys, hash algorithms, configuration and stream state of one never affect another.',
  ['histories', 'schedules', 'configurations'], 'all interleavings of calls to several sessions',
  'The tests have one session of each kind at a time.', [C, S, A, O, U], M(('session struct', 'lib/src/signed_video_internal.h'),),
  'The specification has one state per session; interleaved sessions are compared call by call.')

EXTRA = os.path.join(ROOT, 'bin', 'docs_extra.py')
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, 'exec'))

P.sort(key=lambda x: x['id'])
NA = globals().get('NOT_APPLICABLE', [])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != '_'}) + '\n')
man = dict(
    version=1,
    setup_cmd='bash bin/setup.sh',
    checks=[dict(property=x['id'], quick_cmd='python3 bin/check.py %s --tier quick' % x['id'],
                 thorough_cmd='python3 bin/check.py %s --tier thorough' % x['id'],
                 technique=x['_technique'], level=x['_level'], level_note=x['_note'])
            for x in P if x['id'] not in [n['property'] for n in NA]],
    not_applicable=NA,
    notes='Language: TLA+, checked with TLC. See DESIGN.md. No hooks in /repo: everything is observed through the public API and the '
          'signing plugin interface.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
for x in P:
    assert len(x['title']) <= 80, x['title']
    assert x['statement'].count('. ') <= 2, (x['id'], x['statement'].count('. '))
print(len(P), 'properties')
