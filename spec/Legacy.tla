------------------------------- MODULE Legacy --------------------------------
(* Validation of streams signed in the format used before version 2, and the switch to it.             *)
(* There every GOP is signed together with the first picture of the next GOP: that picture is verified  *)
(* twice, with the GOP in front of it (hash with reference, h1) and with its own (plain hash, h2).      *)
(* A signature is either over the document with a list of hashes, or over the GOP hash: the sequence of *)
(* hashes with the document at the end.  XFeed/XReset are VFeed/VReset of a session that may be either. *)
EXTENDS Validator

RC_INCOMPAT == -15

LNew(n) == NewItem(n) @@ [need2 |-> FALSE, fna |-> FALSE]
LMiss == MissItem @@ [need2 |-> FALSE, fna |-> FALSE]
LAddMissing(items, num, append, i) ==
  IF num <= 0 \/ i = 0 THEN items
  ELSE LET cut == IF append THEN i ELSE i - 1
       IN SubSeq(items, 1, cut) \o [k \in 1 .. num |-> LMiss] \o SubSeq(items, cut + 1, Len(items))
Pos(x) == IF x > 0 THEN x ELSE 0

IsLegacySei(n) == n.t = "S" /\ "leg" \in DOMAIN n.sei /\ n.sei.leg = 1

-----------------------------------------------------------------------------
(* Decoding *)
LDecodeTag(v, s, tag) ==
  CASE tag = 1 ->
        IF s.genver \notin {1, 2} THEN [v |-> v, rc |-> RC_INCOMPAT]
        ELSE [v |-> [v EXCEPT !.gopCtr = s.gop, !.numSent = s.num, !.vsign = s.ver, !.vnew = (s.vnew = 1),
                              !.hts = IF s.genver = 1 THEN v.hts ELSE s.hts = 1,
                              !.ts = IF s.hts = 1 THEN s.ts ELSE v.ts], rc |-> RC_OK]
    [] OTHER -> DecodeTag(v, s, tag)
RECURSIVE LDecodeTags(_, _, _)
LDecodeTags(v, s, k) ==
  IF k > Len(s.tags) THEN [v |-> v, rc |-> RC_OK]
  ELSE LET d == LDecodeTag(v, s, s.tags[k]) IN IF d.rc # RC_OK THEN d ELSE LDecodeTags(d.v, s, k + 1)

LDecodeSei(v, s) ==
  LET d == LDecodeTags(v, s, 1)
      lost == d.v.gopCtr # v.gopCtr + 1 /\ v.synced
  IN IF d.rc # RC_OK THEN d
     ELSE [v |-> [d.v EXCEPT !.lost = lost, !.transLost = v.transLost \/ (v.noEnd /\ lost)], rc |-> RC_OK]

-----------------------------------------------------------------------------
(* The items a SEI is taken to cover: the pending ones up to the first picture of the next GOP, or up   *)
(* to the one that follows the SEI.                                                                     *)
RECURSIVE CoverLoop(_, _, _)
CoverLoop(items, si, s) ==
  IF s.i > Len(items) \/ s.stop THEN s
  ELSE LET it == items[s.i] IN
       IF it.st # "P" THEN CoverLoop(items, si, [s EXCEPT !.i = s.i + 1])
       ELSE LET stop == s.i = si + 1 \/ (First(it) /\ ~it.need2)
            IN CoverLoop(items, si, [i |-> s.i + 1, stop |-> stop,
                                     c |-> IF it.t = "S" THEN s.c ELSE Append(s.c, s.i)])
Cover(items, si) == CoverLoop(items, si, [i |-> 1, stop |-> FALSE, c |-> <<>>]).c
HashOf(it) == IF it.need2 THEN it.h2 ELSE it.h1

LComputeGop(v, si) ==
  LET c == Cover(v.items, si)
      in == { c[k] : k \in DOMAIN c } \cup {si}
  IN [v EXCEPT !.computed = [k \in DOMAIN c |-> HashOf(v.items[c[k]])],
               !.items = [i \in DOMAIN v.items |-> IF i \in in THEN [v.items[i] EXCEPT !.used = TRUE] ELSE v.items[i]]]

\* The signature of the SEI decoded last, against the document or against the GOP hash computed last.
LVerify(v) ==
  LET r == VerifySig(v)
  IN IF v.cur.ok = 0 THEN -1
     ELSE IF v.cur.ht = 1 THEN r
     ELSE IF v.computed = v.cur.goph \/ r = -1 THEN r ELSE 0

LPrepare(v) ==
  LET si == NextSei(v.items)
      a == IF si = 0 THEN [v |-> v, rc |-> RC_OK]
           ELSE IF v.items[si].dec THEN [v |-> v, rc |-> RC_OK]
           ELSE LET d == LDecodeSei(v, v.items[si].sei)
                IN IF d.rc # RC_OK THEN d ELSE [v |-> [d.v EXCEPT !.items[si].dec = TRUE], rc |-> RC_OK]
      b == IF si = 0 \/ a.rc # RC_OK THEN a.v
           ELSE IF ~a.v.items[si].used /\ a.v.cur.ht = 0 THEN LComputeGop(a.v, si) ELSE a.v
  IN IF a.rc # RC_OK THEN a
     ELSE IF b.signPresent /\ ~b.hasPk THEN [v |-> b, rc |-> RC_NOTSUP]
     ELSE LET o == Origin(b) IN
          IF o.rc # RC_OK \/ ~o.v.hasSei THEN o
          ELSE [v |-> [o.v EXCEPT !.verified = LVerify(o.v)], rc |-> RC_OK]

-----------------------------------------------------------------------------
(* Verifying one GOP *)
RECURSIVE LWithoutLoop(_, _, _)
LWithoutLoop(items, i, marked) ==
  IF i > Len(items) THEN [items |-> items, marked |-> marked, found |-> FALSE]
  ELSE LET it == items[i] IN
    IF it.st # "P" THEN LWithoutLoop(items, i + 1, marked)
    ELSE IF First(it) /\ ~it.need2
         THEN [items |-> [items EXCEPT ![i].need2 = TRUE, ![i].fna = TRUE], marked |-> marked, found |-> TRUE]
         ELSE LWithoutLoop([items EXCEPT ![i].need2 = FALSE, ![i].st = "N"], i + 1, marked + 1)
LWithoutSei(v) ==
  LET w == LWithoutLoop(v.items, 1, 0)
  IN [v |-> [v EXCEPT !.items = w.items,
                      !.gopCtr = v.gopCtr + (IF v.signPresent /\ w.marked > 0 THEN 1 ELSE 0)],
      succ |-> w.found, exp |-> -1, rec |-> -1]

\* One item against the list of hashes
RECURSIVE LListLoop(_, _)
LListLoop(s, list) ==
  IF s.i > Len(s.items) \/ s.stop THEN s
  ELSE LET it == s.items[s.i] IN
    IF it.st # "P" THEN LListLoop([s EXCEPT !.i = s.i + 1], list)
    ELSE LET stop == s.i = s.si + 1 \/ (First(it) /\ ~it.need2)
         IN IF it.t = "S" THEN LListLoop([s EXCEPT !.i = s.i + 1, !.stop = stop], list)
            ELSE LET k == FindHash(list, HashOf(it), s.latest + 1)
                     nm == Pos(k - s.latest - 1 - s.ninv)
                     again == it.h2 # "" /\ ~it.need2
                     x == IF k <= Len(list)
                          THEN IF again /\ First(it) THEN [it EXCEPT !.need2 = TRUE]
                               ELSE [it EXCEPT !.st = IF it.fna THEN "N" ELSE ".", !.need2 = FALSE]
                          ELSE IF again THEN [it EXCEPT !.need2 = TRUE, !.fna = TRUE]
                               ELSE [it EXCEPT !.need2 = FALSE, !.st = "N"]
                     its == [s.items EXCEPT ![s.i] = x]
                 IN IF k <= Len(list)
                    THEN LListLoop([items |-> LAddMissing(its, nm, FALSE, s.i), i |-> s.i + nm + 1,
                                    si |-> IF s.si >= s.i THEN s.si + nm ELSE s.si, stop |-> stop, last |-> s.i + nm,
                                    latest |-> k, cmp |-> k, ninv |-> 0, nver |-> s.nver + 1], list)
                    ELSE LListLoop([s EXCEPT !.items = its, !.i = s.i + 1, !.stop = stop, !.last = s.i, !.cmp = k,
                                             !.ninv = s.ninv + 1, !.nver = s.nver + 1], list)

LWithList(v) ==
  LET si == NextSei(v.items)
      n == Len(v.list)
      s == LListLoop([items |-> v.items, i |-> 1, si |-> si, stop |-> FALSE, last |-> 0, latest |-> 0, cmp |-> 1,
                      ninv |-> 0, nver |-> 0], v.list)
      its0 == [s.items EXCEPT ![s.si].st = "."]
      num == IF s.latest = 0 THEN Pos(n - s.ninv) ELSE 0
      app == s.items[1].h2 # "" /\ ~s.items[1].need2
      its1 == LAddMissing(its0, num, app, 1)
      last == IF s.last = 0 THEN 0 ELSE IF app /\ s.last = 1 THEN 1 ELSE s.last + num
      unused == n - s.latest - 1
  IN IF si = 0 THEN [v |-> v, succ |-> FALSE, exp |-> -1, rec |-> -1]
     ELSE IF v.verified # 1 THEN LWithoutSei([v EXCEPT !.items[si].st = IF v.verified = -1 THEN "E" ELSE "N"])
     ELSE IF last = 0 THEN [v |-> [v EXCEPT !.items = its1], succ |-> TRUE, exp |-> n, rec |-> s.nver]
     ELSE IF s.latest # s.cmp
     THEN [v |-> [v EXCEPT !.items = [its1 EXCEPT ![last].fna = TRUE, ![last].need2 = (its1[last].st = "P")]], succ |-> TRUE, exp |-> n,
           rec |-> s.nver]
     ELSE [v |-> [v EXCEPT !.items = LAddMissing(its1, unused, TRUE, last)], succ |-> TRUE, exp |-> n,
           rec |-> s.nver + (IF unused >= 0 THEN 1 ELSE 0)]

LWithGopHash(v) ==
  LET st == IF v.verified = 1 THEN "." ELSE "N"
      Used(it) == it.used
      fi == FindFirst(v.items, Used)
      Twice(it) == it.h2 # "" /\ ~it.need2
      Done(it) == it.used /\ ~Twice(it)
      rec == Count(v.items, Done)
      its == [i \in DOMAIN v.items |->
                LET it == v.items[i] IN
                IF ~it.used THEN it
                ELSE IF Twice(it) THEN [it EXCEPT !.need2 = TRUE, !.fna = (st # "."), !.used = FALSE]
                ELSE [it EXCEPT !.st = IF it.fna THEN "N" ELSE st, !.need2 = FALSE, !.used = FALSE]]
  IN IF v.verified = -1 THEN LWithoutSei(v)
     ELSE [v |-> [v EXCEPT !.items = IF v.firstVal \/ fi = 0 THEN its
                                     ELSE LAddMissing(its, v.numSent - rec, First(its[fi]), fi)],
           succ |-> TRUE, exp |-> v.numSent, rec |-> rec]

RECURSIVE LRemMiss(_, _, _, _)
LRemMiss(items, i, fp, fd) ==
  IF i > Len(items) \/ (fp /\ fd) THEN items
  ELSE IF items[i].st = "M" /\ i = 1 THEN LRemMiss(Tail(items), 1, fp, fd)
  ELSE LET it == items[i]
           d == it.dec /\ it.st # "U"
           x == [it EXCEPT !.fna = IF fp THEN it.fna ELSE FALSE, !.st = IF d THEN "U" ELSE it.st]
       IN LRemMiss([items EXCEPT ![i] = x], i + 1, fp \/ x.st = "P", fd \/ d)

LValidate(v) ==
  LET lostPath == v.lost /\ ~v.transLost
      r == IF lostPath THEN LWithoutSei([v EXCEPT !.items = ClearUsed(v.items)])
           ELSE IF v.cur.ht = 1 THEN LWithList(v) ELSE LWithGopHash(v)
      v1 == r.v
      Inv(it) == it.st \in {"N", "E"}
      Mis(it) == it.st = "M"
      Val(it) == (it.st = "." /\ it.t # "S") \/ (it.st = "P" /\ it.need2 /\ ~it.fna)
      nInv == Count(v1.items, Inv)
      nMis == Count(v1.items, Mis)
      hasVal == Count(v1.items, Val) > 0
      val0 == IF nInv > 0 THEN NOT_OK ELSE AUTH_OK
      val1 == IF ~v.firstVal /\ val0 = AUTH_OK /\ r.exp > 1 /\ nMis >= r.exp - 1 THEN NOT_OK ELSE val0
      val2 == IF val1 = AUTH_OK /\ ((nMis > 0 /\ r.succ) \/ v.transLost) THEN OK_MISSING ELSE val1
      val3 == IF v.firstVal /\ val2 = AUTH_OK /\ ~hasVal THEN SIG_PRESENT ELSE val2
      failFirst == v.firstVal /\ val3 # AUTH_OK
      val4 == IF failFirst THEN SIG_PRESENT ELSE val3
  IN [v1 EXCEPT !.items = IF failFirst THEN LRemMiss(v1.items, 1, FALSE, FALSE) ELSE v1.items,
                !.synced = IF v.firstVal THEN val3 = AUTH_OK ELSE TRUE,
                !.auth = IF v1.pkc THEN NOT_OK ELSE val4,
                !.exp = IF failFirst THEN -1 ELSE r.exp,
                !.rec = IF failFirst THEN -1 ELSE r.rec,
                !.resetFirst = IF failFirst THEN v1.numSent = 1 /\ ~v1.pkc ELSE v1.resetFirst]

-----------------------------------------------------------------------------
(* Which GOPs await validation. *)
RECURSIVE LPendLoop(_, _)
LPendLoop(v, s) ==
  IF s.i > Len(v.items) \/ s.found THEN s
  ELSE LET it == v.items[s.i]
           cand == it.st = "P" /\ it.hashable
           ends == s.ends + (IF cand /\ First(it) /\ ~it.need2 THEN 1 ELSE 0)
           fs == s.fs \/ (cand /\ it.t = "S")
           after == s.after \/ (cand /\ s.lastSei)
           found == (IF ~v.signPresent THEN ends >= 2 ELSE ends > 0 /\ fs) \/ after
       IN LPendLoop(v, [i |-> s.i + 1, has |-> s.has \/ it.t = "S", ends |-> ends, fs |-> fs, after |-> after,
                        found |-> found, lastSei |-> IF cand THEN it.t = "S" ELSE s.lastSei])
LHasPending(v) ==
  LET s == LPendLoop(v, [i |-> 1, has |-> FALSE, ends |-> 0, fs |-> FALSE, after |-> FALSE, found |-> FALSE, lastSei |-> FALSE])
  IN [found |-> s.found,
      v |-> [v EXCEPT !.lost = FALSE, !.transLost = FALSE, !.hasSei = s.has, !.noEnd = s.after /\ s.ends < 2,
                      !.vanext = ~s.found /\ s.lastSei]]

\* A first validation that was of no use does not count; the next GOP gets another chance.
Again(v) ==
  LET F(it) == it.t \in {"I", "A"}
      k == FindFirst(v.items, F)
      w == [v EXCEPT !.firstVal = TRUE, !.resetFirst = FALSE]
  IN IF ~v.resetFirst THEN v
     ELSE IF k = 0 THEN w ELSE [w EXCEPT !.items[k].need2 = FALSE, !.items[k].fna = FALSE]

RECURSIVE LValLoop(_, _)
LValLoop(v, stop) ==
  LET p == LHasPending(v) IN
  IF ~p.found \/ stop THEN [v |-> p.v, rc |-> RC_OK]
  ELSE LET d == LPrepare([p.v EXCEPT !.auth = NOT_OK, !.exp = -1, !.rec = -1, !.pend = -1, !.pkc = FALSE])
       IN IF d.rc # RC_OK THEN d
          ELSE LET u == d.v
                   x == IF ~u.signPresent THEN [u EXCEPT !.auth = NOT_SIGNED] ELSE LValidate(u)
                   y == Again([x EXCEPT !.firstVal = ~x.signPresent, !.verified = -1, !.hasResult = TRUE])
                   \* several GOPs validated at once: the worst result is the one told
                   z == IF ~v.hasResult THEN y
                        ELSE [y EXCEPT !.auth = IF v.auth > SIG_PRESENT /\ v.auth < y.auth THEN v.auth ELSE y.auth,
                                       !.pkc = y.pkc \/ v.pkc]
               IN LValLoop([z EXCEPT !.pend = NumPending(z)], ~u.signPresent)

\* Does the item that came last call for a validation?
RECURSIVE PrevHashable(_, _)
PrevHashable(items, i) ==
  IF i = 0 THEN 0 ELSE IF items[i].hashable \/ items[i].t \in {"A", "a", "X", "x"} THEN i ELSE PrevHashable(items, i - 1)
LFeasible(items) ==
  LET n == Len(items)
      last == items[n]
      k == PrevHashable(items, n - 1)
  IN /\ last.hashable /\ last.st = "P"
     /\ \/ last.t = "S"
        \/ First(last) /\ ~last.need2
        \/ k > 0 /\ items[k].t = "S" /\ items[k].st = "P"

LMaybeValidate(v) ==
  LET d == RecDecoded(v) IN
  IF LFeasible(v.items) /\ d.ok THEN LValLoop(d.v, FALSE)
  ELSE [v |-> IF ~d.v.firstSei THEN d.v
              ELSE [d.v EXCEPT !.auth = SIG_PRESENT, !.pkc = FALSE, !.exp = -1, !.rec = -1, !.hasResult = TRUE,
                               !.pend = NumPending(d.v)], rc |-> RC_OK]

RECURSIVE LCleanUp(_, _)
LCleanUp(items, n) ==
  IF items = <<>> THEN [items |-> items, n |-> n]
  ELSE IF items[1].st = "P" \/ items[1].need2 THEN [items |-> items, n |-> n]
  ELSE LCleanUp(Tail(items), IF items[1].st = "M" THEN n ELSE n + 1)

\* As UpdateReport, but for what is removed from the list
LUpdateReport(v) ==
  LET c == LCleanUp(v.items, 0)
      r == UpdateReport([v EXCEPT !.anval = 0])
  IN [r EXCEPT !.items = c.items, !.anval = v.anval + (IF r.aauth # NOT_SIGNED THEN c.n ELSE 0)]

LFeed(v0, n) ==
  LET v1 == [v0 EXCEPT !.hasResult = FALSE, !.anrec = v0.anrec + 1, !.items = Append(v0.items, LNew(n)),
                       !.firstSei = ~v0.signPresent /\ n.t = "S", !.signPresent = v0.signPresent \/ n.t = "S"]
      b == LMaybeValidate(HashItem(v1, Len(v1.items)))
      c == b.v
  IN IF b.rc # RC_OK
     THEN [v |-> Failing(c), rc |-> b.rc, rep |-> NoReport, gone |-> <<>>]
     ELSE IF ~c.hasResult THEN [v |-> c, rc |-> RC_OK, rep |-> NoReport, gone |-> <<>>]
     ELSE LET r == LUpdateReport(c)
          IN [v |-> [r EXCEPT !.hts = FALSE], rc |-> RC_OK, rep |-> ReportOf(r),
              gone |-> SubSeq(c.items, 1, Len(c.items) - Len(r.items))]

-----------------------------------------------------------------------------
(* The switch: the first SEI, when it is of the legacy format, is validated together with everything    *)
(* received so far as if the session had been a legacy one from the start.                              *)
LInit(v) ==
  [v EXCEPT !.leg = TRUE, !.items = <<>>, !.algoKnown = TRUE, !.signPresent = FALSE, !.firstSei = FALSE, !.firstVal = TRUE,
            !.resetFirst = FALSE, !.hasResult = FALSE, !.hasSei = FALSE, !.vanext = FALSE, !.noEnd = FALSE, !.lost = FALSE,
            !.transLost = FALSE, !.gopCtr = 0, !.numSent = 0, !.list = <<>>, !.hasRef = FALSE, !.ref = "0",
            !.synced = FALSE, !.verified = -1, !.computed = <<"0">>,
            !.aauth = NOT_SIGNED, !.apkc = FALSE, !.anrec = 0, !.anval = 0, !.apkv = PKV_NF, !.ahts = FALSE,
            !.afts = "0", !.alts = "0"]

RECURSIVE Refeed(_, _, _, _)
Refeed(v, items, k, gone) ==
  IF k > Len(items) THEN [v |-> v, rc |-> RC_OK, gone |-> gone]
  ELSE LET r == LFeed(v, [t |-> items[k].t, h |-> items[k].h, sei |-> items[k].sei])
       IN IF r.rc # RC_OK THEN [v |-> r.v, rc |-> r.rc, gone |-> gone] ELSE Refeed(r.v, items, k + 1, IF r.v.aauth <= SIG_PRESENT THEN <<>> ELSE gone \o r.gone)

XFeed(v, n) ==
  IF v.leg THEN LFeed(v, n)
  ELSE IF ~IsLegacySei(n) \/ v.algoKnown THEN VFeed(v, n)
  ELSE LET v1 == [v EXCEPT !.started = TRUE, !.hasReport = TRUE, !.hasResult = FALSE, !.signPresent = TRUE,
                           !.items = Append(v.items, NewItem(n))]
           d == RecDecoded(v1)
       IN IF ~d.ok THEN VFeed(v, n)
          ELSE LET a == Refeed(LInit(d.v), v.items, 1, <<>>)
               IN IF a.rc # RC_OK THEN [v |-> [a.v EXCEPT !.hasResult = FALSE], rc |-> a.rc, rep |-> NoReport, gone |-> a.gone]
                  ELSE LET r == LFeed(a.v, n) IN [r EXCEPT !.gone = a.gone \o r.gone]
\* A session whose hash algorithm is known does not expect the legacy format any more.
Mixed(v, n) == ~v.leg /\ v.algoKnown /\ IsLegacySei(n)
==============================================================================
