------------------------------- MODULE Signer -------------------------------
(* The signing side of the Signed Video Framework as a deterministic transition system on a state    *)
(* record |s|.  Every operator S...(s, ...) is the effect of one public API call: the next state, the *)
(* return code and what the caller gets.  Hashes are symbolic and injective, as in Validator.tla.     *)
(* A signature is symbolic too: a SEI is signed with the key that was set when it was generated.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  MaxBuffer,    \* MAX_SEI_DATA_BUFFER: SEIs waiting for a signature or to be fetched
  HashListBytes \* HASH_LIST_SIZE

SOK == 0
SMEMORY == -1
SINVALID == -10
SNOTSUP == -12
SEXTERNAL == -20

GOP_LEVEL == 0
FRAME_LEVEL == 1

SPic(t) == t \in {"I", "i", "P", "p"}

SInit ==
  [ key |-> "", started |-> FALSE, level |-> FRAME_LEVEL, recur |-> 1, addpk |-> TRUE, epb |-> TRUE,
    usingGold |-> FALSE, maxsei |-> 0, algo |-> "sha256", hs |-> 32, prod |-> <<"", "", "", "", "">>,
    att |-> "", chain |-> "", vend |-> 0,   \* attestation report, certificates, and their size in a SEI (0: none)
    an |-> 0, cn |-> 0,
    frame |-> 0, hasRec |-> FALSE, gen |-> FALSE, num |-> 0,
    list |-> <<>>, over |-> FALSE,  \* hashes since the latest SEI; |over|: they did not fit
    ref |-> "0", hasRef |-> FALSE, linked |-> <<"0", "0">>,
    ctx |-> [junk |-> TRUE, hs |-> <<>>], computed |-> <<"0">>,
    gopCtr |-> 0, hts |-> FALSE, ts |-> "0",
    buf |-> <<>>, ncomp |-> 0, avoid |-> FALSE, partial |-> FALSE,
    \* the signing plugin: signatures ready to be collected (oldest first), not ready ones, and faults
    ready |-> <<>>, held |-> 0, hold |-> FALSE, signfail |-> FALSE ]

R(s, rc) == [s |-> s, rc |-> rc]

HashSize(algo) ==
  CASE algo = "sha256" -> 32 [] algo = "sha384" -> 48 [] algo = "sha512" -> 64 [] OTHER -> 0
Oid(algo) ==
  CASE algo = "sha256" -> "0609608648016503040201" [] algo = "sha384" -> "0609608648016503040202"
    [] algo = "sha512" -> "0609608648016503040203" [] OTHER -> ""
PkSize(k) == IF k = "R" THEN 451 ELSE 178
SigSize(k) == IF k = "R" THEN 256 ELSE 72

-----------------------------------------------------------------------------
(* Configuration *)
SetKey(s, k) == IF k \notin {"A", "B", "R"} THEN R(s, SEXTERNAL) ELSE R([s EXCEPT !.key = k], SOK)
SetLevel(s, l) == IF l \notin {0, 1} THEN R(s, SNOTSUP) ELSE R([s EXCEPT !.level = l], SOK)
SetRecur(s, n) == IF n < 1 THEN R(s, SNOTSUP) ELSE R([s EXCEPT !.recur = n], SOK)
SetAddPk(s, b) == R([s EXCEPT !.addpk = b], SOK)
SetEpb(s, b) == R([s EXCEPT !.epb = b], SOK)
SetGolden(s, b) == IF s.started THEN R(s, SNOTSUP) ELSE R([s EXCEPT !.usingGold = b], SOK)
SetMaxSei(s, n) == R([s EXCEPT !.maxsei = n], SOK)
SetHash(s, a) ==
  IF s.started THEN R(s, SNOTSUP)
  ELSE IF HashSize(a) = 0 THEN R(s, SINVALID)
  ELSE R([s EXCEPT !.algo = a, !.hs = HashSize(a)], SOK)
\* An attestation report of |an| bytes and a chain of which the SEI carries |cn| bytes (0: no root in it).
\* Either one can be set on its own, once. ("": not given, "0": of no size, "e": an empty string.)
SetAttest(s, a, c, an, cn) ==
  IF (a = "" /\ c = "") \/ a = "0" THEN R(s, SINVALID)
  ELSE IF (a # "" /\ s.att # "") \/ (c # "" /\ s.chain # "") THEN R(s, SNOTSUP)
  ELSE IF c = "e" THEN R(s, SMEMORY)
  ELSE LET u == [s EXCEPT !.att = IF a # "" THEN a ELSE s.att, !.an = IF a # "" THEN an ELSE s.an,
                          !.chain = IF c # "" THEN c ELSE s.chain, !.cn = IF c # "" THEN cn ELSE s.cn]
       IN R([u EXCEPT !.vend = IF u.an > 0 /\ u.cn > 0 THEN 2 + u.an + u.cn ELSE 0], SOK)
SetProd(s, p) == R([s EXCEPT !.prod = p], SOK)

-----------------------------------------------------------------------------
(* Hashing *)
HashesFit(s) == (Len(s.list) + 1) * s.hs <= HashListBytes
AddHash(s, h) ==
  LET fresh == s.list = <<>> /\ ~s.over
      c == IF fresh THEN [junk |-> FALSE, hs |-> <<h>>] ELSE [s.ctx EXCEPT !.hs = Append(s.ctx.hs, h)]
      ov == s.over \/ ~HashesFit(s)
  IN [s EXCEPT !.ctx = c, !.over = ov, !.list = IF ov THEN <<>> ELSE Append(s.list, h), !.num = s.num + 1]

HashNalu(s, t, h) ==
  IF ~SPic(t) THEN s
  ELSE IF t = "I" /\ ~s.hasRef
       THEN LET a == AddHash([s EXCEPT !.ref = h, !.hasRef = TRUE], h)
            IN [a EXCEPT !.linked = <<a.linked[2], h>>]
  ELSE LET a == AddHash(s, s.ref \o "/" \o h)
       IN IF t = "I" THEN [a EXCEPT !.linked = <<a.linked[2], s.ref \o "/" \o h>>] ELSE a

Computed(s) == IF s.ctx.junk THEN <<"?">> ELSE s.ctx.hs

-----------------------------------------------------------------------------
(* Generating a SEI and handing its document hash to the signing plugin *)
RECURSIVE SumLen(_)
SumLen(p) == IF p = <<>> THEN 0 ELSE 1 + (IF Len(Head(p)) + 1 > 255 THEN 255 ELSE Len(Head(p)) + 1) + SumLen(Tail(p))

OptTags(s, gold) ==
  IF ~s.hasRec \/ (s.usingGold /\ ~gold) THEN <<>>
  ELSE (IF s.addpk /\ s.key # "" THEN <<2>> ELSE <<>>) \o <<3, 7>>
TagSize(s, t) ==
  CASE t = 1 -> 2 + 11 + (IF s.hts THEN 8 ELSE 0) + 2 * s.hs
    [] t = 2 -> 3 + 1 + PkSize(s.key)
    [] t = 3 -> 3 + 1 + SumLen(s.prod)
    [] t = 4 -> 3 + 1 + Len(s.list) * s.hs
    [] t = 5 -> 3 + 5 + SigSize(s.key)
    [] t = 7 -> 2 + 2 + 11
    [] OTHER -> 3 + s.vend
RECURSIVE TagsSize(_, _)
TagsSize(s, ts) == IF ts = <<>> THEN 0 ELSE TagSize(s, Head(ts)) + TagsSize(s, Tail(ts))

\* The SEI for the NAL Units hashed since the latest SEI.
MakeSei(s, gold) ==
  LET opt == OptTags(s, gold)
      hl == s.level = FRAME_LEVEL /\ s.list # <<>>
      ven == IF s.vend > 0 /\ s.hasRec THEN <<129>> ELSE <<>>
      man0 == IF gold THEN <<>> ELSE IF hl THEN <<1, 4>> ELSE <<1>>
      size0 == 17 + TagsSize(s, opt \o man0 \o ven \o <<5>>)
      tooBig == s.maxsei > 0 /\ size0 > s.maxsei /\ ~gold
      man == IF tooBig THEN <<1>> ELSE man0
      tags == opt \o man \o ven \o <<5>>
      Has(t) == \E i \in DOMAIN tags : tags[i] = t
  IN [ ok |-> 1, gold |-> IF gold THEN 1 ELSE 0, epb |-> IF s.epb THEN 1 ELSE 0, tags |-> tags,
       gop |-> IF gold THEN 0 ELSE s.gopCtr + 1, num |-> IF gold THEN 0 ELSE s.num % 65536,
       hts |-> IF ~gold /\ s.hts THEN 1 ELSE 0, ts |-> IF ~gold /\ s.hts THEN s.ts ELSE "0",
       link |-> IF gold THEN "0" ELSE s.linked[1], goph |-> IF gold THEN <<"0">> ELSE s.computed,
       list |-> IF Has(4) THEN s.list ELSE <<>>,
       pk |-> IF Has(2) THEN s.key ELSE "", prod |-> IF Has(3) THEN s.prod ELSE <<>>,
       att |-> IF Has(129) THEN s.att ELSE "", chain |-> IF Has(129) THEN s.chain ELSE "",
       cr |-> IF Has(7) THEN Oid(s.algo) ELSE "", signer |-> s.key, maxsig |-> SigSize(s.key),
       psize |-> 17 + TagsSize(s, tags) ]

Generate(s, gold) ==
  \* (no room: the SEI is not generated, and the GOP hash is lost for the pictures it should have covered)
  IF Len(s.buf) >= MaxBuffer THEN R(IF gold THEN s ELSE [s EXCEPT !.ctx.junk = TRUE], SNOTSUP)
  ELSE LET sei == MakeSei(s, gold)
           a == [s EXCEPT !.gopCtr = IF gold THEN s.gopCtr ELSE s.gopCtr + 1,
                          !.num = 0, !.list = <<>>, !.over = FALSE, !.hasRef = FALSE, !.hts = FALSE,
                          !.ctx = [junk |-> TRUE, hs |-> <<>>]]
       IN IF s.signfail THEN R([a EXCEPT !.signfail = FALSE], SEXTERNAL)
          ELSE R([a EXCEPT !.buf = Append(s.buf, sei),
                           !.ready = IF s.hold \/ s.held > 0 THEN s.ready ELSE Append(s.ready, "ok"),
                           !.held = IF s.hold \/ s.held > 0 THEN s.held + 1 ELSE s.held], SOK)

\* Common checks of all calls that add to the stream
Prepare(s) ==
  IF s.key = "" THEN R(s, SNOTSUP)
  ELSE LET a == [s EXCEPT !.started = TRUE]
       IN IF s.ncomp > 0 /\ ~s.avoid THEN R(a, SNOTSUP) ELSE R(a, SOK)

\* A complete NAL Unit, added in one or several parts; |stop|: the last part was never added.
SAdd(s, t, h, hts, ts, stop) ==
  LET p == Prepare(s) IN
  IF p.rc # SOK THEN p
  ELSE IF stop THEN R([p.s EXCEPT !.partial = TRUE], SOK)
  ELSE LET a == IF t \notin {"I", "P"} THEN p.s
                ELSE [p.s EXCEPT !.hasRec = p.s.hasRec \/ (p.s.frame % p.s.recur = 0), !.frame = p.s.frame + 1]
           g == IF t # "I" THEN R(a, SOK)
                ELSE IF ~a.gen THEN R([a EXCEPT !.gen = TRUE], SOK)
                ELSE Generate([a EXCEPT !.hts = hts \/ a.hts, !.ts = IF hts THEN ts ELSE a.ts,
                                        !.computed = Computed(a)], FALSE)
       IN IF g.rc # SOK THEN g ELSE R(HashNalu(g.s, t, h), SOK)

SEos(s0, Complete(_)) ==
  LET p == Prepare(s0) IN
  IF p.rc # SOK THEN p
  ELSE LET s == p.s
           a == IF s.list # <<>> \/ s.over THEN [s EXCEPT !.computed = Computed(s)] ELSE s
           g == Generate(a, FALSE)
       IN IF g.rc # SOK THEN g ELSE Complete(g.s)

SGold(s) ==
  LET a == [s EXCEPT !.hasRec = TRUE, !.level = FRAME_LEVEL]
      p == Prepare(a)
  IN IF p.rc # SOK THEN p ELSE Generate(p.s, TRUE)

SReset(s) ==
  R([s EXCEPT !.started = FALSE, !.gen = FALSE, !.list = <<>>, !.over = FALSE, !.hasRef = FALSE, !.ref = "0",
              !.linked = <<"0", "0">>, !.num = 0, !.partial = FALSE], SOK)

-----------------------------------------------------------------------------
(* Collecting signatures. The SEIs are completed in the order in which they were generated; one with  *)
(* a failed signature is dropped, and the error reported.                                              *)
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Collect(_)
Collect(s) ==
  IF s.ready = <<>> THEN R(s, SOK)
  ELSE LET a == [s EXCEPT !.ready = Tail(s.ready)]
       IN IF Head(s.ready) = "ok" THEN Collect([a EXCEPT !.ncomp = s.ncomp + 1, !.hasRec = FALSE])
          ELSE R([a EXCEPT !.buf = RemoveAt(s.buf, s.ncomp + 1)], SEXTERNAL)

\* The plugin makes |n| of the outstanding signatures available, or fails them.
SRelease(s, n, what) ==
  LET k == IF n < s.held THEN n ELSE s.held
  IN [s EXCEPT !.held = s.held - k, !.ready = s.ready \o [i \in 1 .. k |-> what]]

\* signed_video_get_sei(): |peek| is the type of the NAL Unit peeked at ("" if none).
NoSeiGot == [none |-> TRUE]
SGet(s, peek, probe) ==
  LET c == Collect(s) IN
  IF c.rc # SOK THEN [s |-> c.s, rc |-> c.rc, sz |-> 0, pend |-> Len(s.buf), sei |-> NoSeiGot]
  ELSE IF c.s.ncomp = 0 THEN [s |-> c.s, rc |-> SOK, sz |-> 0, pend |-> Len(s.buf), sei |-> NoSeiGot]
  ELSE IF peek \notin {"", "I", "P"}
       THEN [s |-> [c.s EXCEPT !.avoid = TRUE], rc |-> SOK, sz |-> 0, pend |-> Len(s.buf), sei |-> NoSeiGot]
  ELSE IF probe THEN [s |-> c.s, rc |-> SOK, sz |-> 1, pend |-> Len(s.buf), sei |-> NoSeiGot]
  ELSE [s |-> [c.s EXCEPT !.buf = Tail(c.s.buf), !.ncomp = c.s.ncomp - 1], rc |-> SOK, sz |-> 1,
        pend |-> Len(c.s.buf) - 1, sei |-> Head(c.s.buf)]

\* signed_video_get_nalu_to_prepend(): the latest completed SEI first
SPrep(s) ==
  LET c == Collect(s) IN
  IF c.rc # SOK \/ c.s.ncomp = 0 THEN [s |-> c.s, rc |-> c.rc, instr |-> 0, sei |-> NoSeiGot]
  ELSE [s |-> [c.s EXCEPT !.buf = RemoveAt(c.s.buf, c.s.ncomp), !.ncomp = c.s.ncomp - 1], rc |-> SOK,
        instr |-> 2, sei |-> c.s.buf[c.s.ncomp]]
==============================================================================
