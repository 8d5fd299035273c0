------------------------------ MODULE Validator ------------------------------
(* The validating side of the Signed Video Framework as a deterministic transition system on a state *)
(* record |v|.  VFeed(v, n) is the effect of signed_video_add_nalu_and_authenticate() for NAL Unit   *)
(* |n|: the next state, the return code, and the authenticity report handed to the user, if any.     *)
(* Hashes are symbolic (injective): the plain hash of a NAL Unit is its name, the hash with a        *)
(* reference is ref/name, a GOP hash is the sequence of the hashes it covers.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Vendor

RC_OK == 0
RC_MEMORY == -1
RC_INVALID == -10
RC_NOTSUP == -12
RC_EXT == -20
RC_AUTHERR == -30
RC_UNKNOWN == -100

\* SignedVideoAuthenticityResult
NOT_SIGNED == 0
SIG_PRESENT == 1
NOT_OK == 2
OK_MISSING == 3
AUTH_OK == 4
VMISMATCH == 5

PKV_NF == 0
PKV_NOT_OK == 1
PKV_OK == 2

NoSei == [ok |-> 0]
NoReport == [none |-> TRUE]

\* NAL Unit types as the driver names them
H == INSTANCE Nalu
IsPicT(t) == t \in {"I", "i", "P", "p"}
NaluChar(it) ==
  CASE it.t = "S" -> IF it.sei.gold = 1 THEN "G" ELSE "S"
    [] OTHER -> H!Shown(it.t)

\* A NAL Unit as fed: [t, h, sei]; sei is NoSei unless t = "S".
NewItem(n) ==
  [t |-> n.t, h |-> n.h, sei |-> n.sei,
   valid |-> ~H!IsFaulty(n.t),
   hashable |-> IsPicT(n.t) \/ n.t = "S",
   st |-> IF H!IsFaulty(n.t) THEN "U" ELSE IF IsPicT(n.t) \/ n.t = "S" THEN "P" ELSE "_",
   h1 |-> "", h2 |-> "", dec |-> FALSE, used |-> FALSE, ln |-> FALSE]
MissItem ==
  [t |-> " ", h |-> "", sei |-> NoSei, valid |-> FALSE, hashable |-> FALSE, st |-> "M",
   h1 |-> "", h2 |-> "", dec |-> FALSE, used |-> TRUE, ln |-> FALSE]

First(it) == it.t = "I"
IsSeiIt(it) == it.t = "S"

EmptyProd == <<"", "", "", "", "">>

VInit ==
  [ items |-> <<>>,
    \* validation flags
    signPresent |-> FALSE, firstSei |-> FALSE, algoKnown |-> FALSE, firstVal |-> TRUE, hasResult |-> FALSE,
    \* gop state
    hasSei |-> FALSE, vanext |-> FALSE, noEnd |-> FALSE, lost |-> FALSE, transLost |-> FALSE,
    \* gop info
    gopCtr |-> 0, latestV |-> 0, numSent |-> 0, rlink |-> "0", rgoph |-> <<"0">>, list |-> <<>>,
    linked |-> <<"0", "0">>, computed |-> <<"0">>, hasRef |-> FALSE, ref |-> "0", synced |-> FALSE,
    verified |-> -1,
    \* keys and signature
    hasPk |-> FALSE, pk |-> "", userPk |-> FALSE, started |-> FALSE, maxsig |-> 0, cur |-> NoSei,
    \* vendor
    ven |-> VendorInit,
    \* report
    hasReport |-> FALSE, leg |-> FALSE, resetFirst |-> FALSE,
    auth |-> NOT_SIGNED, pkc |-> FALSE, exp |-> -1, rec |-> -1, pend |-> 0, pkv |-> PKV_NF, hts |-> FALSE, ts |-> "0",
    ns |-> "", vs |-> "",
    aauth |-> NOT_SIGNED, apkc |-> FALSE, anrec |-> 0, anval |-> 0, apkv |-> PKV_NF, ahts |-> FALSE,
    afts |-> "0", alts |-> "0", vsign |-> "", vnew |-> FALSE, prod |-> EmptyProd ]

-----------------------------------------------------------------------------
(* NAL Unit list helpers *)
\* Position of the first item with property P; 0 if there is none.
FindFirst(items, P(_)) ==
  LET s == { i \in DOMAIN items : P(items[i]) }
  IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j

NextSei(items) == LET Q(it) == it.t = "S" /\ it.st = "P" IN FindFirst(items, Q)

Count(items, P(_)) == Cardinality({ i \in DOMAIN items : P(items[i]) })
NumPending(v) == LET Q(it) == it.st = "P" IN Count(v.items, Q)

\* |num| missing items before or after position |i| (0: no such item)
AddMissing(items, num, append, i) ==
  IF num <= 0 \/ i = 0 THEN items
  ELSE LET cut == IF append THEN i ELSE i - 1
       IN SubSeq(items, 1, cut) \o [k \in 1 .. num |-> MissItem] \o SubSeq(items, cut + 1, Len(items))

ClearUsed(items) == [i \in DOMAIN items |-> [items[i] EXCEPT !.used = FALSE]]

RECURSIVE Join(_)
Join(seq) == IF seq = <<>> THEN "" ELSE Head(seq) \o Join(Tail(seq))
NaluStr(items) == Join([i \in DOMAIN items |-> NaluChar(items[i])])
ValStr(items) == Join([i \in DOMAIN items |-> items[i].st])

-----------------------------------------------------------------------------
(* Hashing of item |i|, at arrival or when the hash algorithm becomes known. *)
HashItem(v, i) ==
  LET it == v.items[i]
      f == First(it)
      s == IsSeiIt(it)
  IN IF ~it.hashable \/ ~it.valid \/ ~v.algoKnown THEN v
     ELSE IF s THEN
       [v EXCEPT !.items[i].h1 = it.h]
     ELSE
       LET plain == f /\ ~v.hasRef
           h1 == IF plain THEN it.h ELSE v.ref \o "/" \o it.h
           ref1 == IF plain THEN it.h ELSE v.ref
           again == f \/ v.vanext
           h2 == IF ~again THEN it.h2 ELSE IF f THEN it.h ELSE ref1 \o "/" \o it.h
       IN [v EXCEPT !.items[i].h1 = h1, !.items[i].h2 = h2,
                    !.ref = IF f THEN it.h ELSE ref1,
                    !.hasRef = IF f THEN TRUE ELSE IF again THEN FALSE ELSE v.hasRef]

RECURSIVE HashAll(_, _)
HashAll(v, i) == IF i > Len(v.items) THEN v ELSE HashAll(HashItem(v, i), i + 1)

-----------------------------------------------------------------------------
(* Decoding of a SEI, tag by tag. *)
OptionalTags == {2, 3, 7, 129}
KnownTags == {1, 2, 3, 4, 5, 6, 7, 129}

DecodeTag(v, s, tag) ==
  CASE tag = 1 ->
        [v |-> [v EXCEPT !.gopCtr = s.gop, !.numSent = s.num, !.vsign = s.ver, !.vnew = (s.vnew = 1),
                         !.hts = (s.hts = 1), !.ts = IF s.hts = 1 THEN s.ts ELSE v.ts,
                         !.rlink = s.link, !.rgoph = s.goph], rc |-> RC_OK]
    [] tag = 2 ->
        LET changed == v.pkc \/ (v.hasPk /\ v.pk # s.pk)
        IN [v |-> [v EXCEPT !.pkc = changed, !.pk = s.pk, !.hasPk = TRUE, !.ven = VendorKey(v.ven, s.pk, changed)], rc |-> RC_OK]
    [] tag = 3 -> [v |-> [v EXCEPT !.prod = s.prod], rc |-> RC_OK]
    [] tag = 4 -> [v |-> [v EXCEPT !.list = s.list], rc |-> RC_OK]
    [] tag = 5 ->
        IF v.maxsig # 0 /\ v.maxsig # s.maxsig THEN [v |-> v, rc |-> RC_MEMORY]
        ELSE [v |-> [v EXCEPT !.maxsig = s.maxsig, !.cur = s], rc |-> RC_OK]
    [] tag = 7 -> [v |-> [v EXCEPT !.algoKnown = TRUE], rc |-> RC_OK]
    [] tag = 129 ->
        LET d == VendorData(v.ven, s.vrc, s.att, s.chain) IN [v |-> [v EXCEPT !.ven = d.w], rc |-> d.rc]
    [] tag = 6 -> [v |-> v, rc |-> RC_OK]
    [] OTHER -> [v |-> v, rc |-> RC_INVALID]

RECURSIVE DecodeTags(_, _, _)
DecodeTags(v, s, k) ==
  IF k > Len(s.tags) THEN [v |-> v, rc |-> RC_OK]
  ELSE LET d == DecodeTag(v, s, s.tags[k])
       IN IF d.rc # RC_OK THEN d ELSE DecodeTags(d.v, s, k + 1)

DetectLost(v) == [v EXCEPT !.lost = (v.gopCtr - (v.latestV + 1) > 0) /\ v.synced]

DecodeSei(v, s) ==
  LET d == DecodeTags([v EXCEPT !.list = <<>>], s, 1)
  IN IF d.rc # RC_OK THEN d
     ELSE LET w == DetectLost(d.v)
          IN [v |-> [w EXCEPT !.transLost = w.transLost \/ (w.noEnd /\ w.lost)], rc |-> RC_OK]

\* Recurrent (optional) data: decoded from the pending SEIs until one carried any.
RECURSIVE DecodeOpt(_, _, _, _)
DecodeOpt(v, s, k, any) ==
  IF k > Len(s.tags) \/ s.tags[k] \notin KnownTags THEN [v |-> v, ok |-> any]
  ELSE IF s.tags[k] \notin OptionalTags THEN DecodeOpt(v, s, k + 1, any)
  ELSE LET d == DecodeTag(v, s, s.tags[k])
       IN IF d.rc # RC_OK THEN [v |-> d.v, ok |-> any] ELSE DecodeOpt(d.v, s, k + 1, TRUE)

RECURSIVE RecLoop(_, _)
RecLoop(v, i) ==
  IF i > Len(v.items) THEN [v |-> v, ok |-> FALSE]
  ELSE IF v.items[i].t = "S" /\ v.items[i].st = "P"
       THEN LET d == DecodeOpt(v, v.items[i].sei, 1, FALSE)
            IN IF d.ok THEN d ELSE RecLoop(d.v, i + 1)
       ELSE RecLoop(v, i + 1)
RecDecoded(v) == IF v.hasPk \/ ~v.signPresent THEN [v |-> v, ok |-> TRUE] ELSE RecLoop(v, 1)

-----------------------------------------------------------------------------
(* Marking the NAL Units of the oldest pending GOP and computing its GOP hash. *)
RECURSIVE MarkLoop(_, _, _, _, _)
MarkLoop(items, si, i, nI, hs) ==
  IF i > Len(items) THEN [items |-> items, hs |-> hs]
  ELSE LET it == items[i]
           n2 == nI + (IF First(it) THEN 1 ELSE 0)
       IN IF it.st # "P" THEN MarkLoop(items, si, i + 1, nI, hs)
          ELSE IF n2 > 1 \/ (First(it) /\ Len(hs) > 0) \/ i = si THEN [items |-> items, hs |-> hs]
          ELSE MarkLoop([items EXCEPT ![i].used = TRUE], si, i + 1, n2,
                        Append(hs, IF First(it) THEN it.h2 ELSE it.h1))
MarkGop(v, si) ==
  LET m == MarkLoop(v.items, si, 1, 0, <<>>) IN [v EXCEPT !.items = m.items, !.computed = m.hs]

VerifySig(v) ==
  IF v.cur.ok = 0 THEN -1
  ELSE CASE v.pk = "A" -> v.cur.sigA [] v.pk = "B" -> v.cur.sigB [] v.pk = "R" -> v.cur.sigR [] OTHER -> -1

\* The origin of the public key, for the manufacturer that attests it.
Origin(v) ==
  IF v.prod[4] # AXIS THEN [v |-> [v EXCEPT !.pkv = PKV_NF], rc |-> RC_OK]
  ELSE LET d == VendorVerify(v.ven) IN
       IF d.rc # RC_OK THEN [v |-> [v EXCEPT !.ven = d.w], rc |-> d.rc]
       ELSE [v |-> [v EXCEPT !.ven = d.w,
                             !.pkv = CASE d.w.val = 0 -> PKV_NOT_OK
                                       [] d.w.val = 1 -> IF v.prod[3] = d.w.ser THEN PKV_OK ELSE PKV_NOT_OK
                                       [] OTHER -> PKV_NF], rc |-> RC_OK]

PrepareForValidation(v) ==
  LET si == NextSei(v.items)
      a == IF si = 0 THEN [v |-> v, rc |-> RC_OK]
           ELSE LET b == IF v.items[si].dec THEN [v |-> v, rc |-> RC_OK]
                         ELSE LET d == DecodeSei([v EXCEPT !.pkc = FALSE], v.items[si].sei)
                              IN IF d.rc # RC_OK THEN d
                                 ELSE [v |-> [d.v EXCEPT !.items[si].dec = TRUE], rc |-> RC_OK]
                    w == DetectLost(b.v)
                \* (a golden SEI does not belong to a GOP)
                IN IF b.rc # RC_OK THEN b ELSE [v |-> IF v.items[si].sei.gold = 1 THEN w ELSE MarkGop(w, si), rc |-> RC_OK]
  IN IF a.rc # RC_OK THEN a
     ELSE IF a.v.signPresent /\ ~a.v.hasPk THEN [v |-> a.v, rc |-> RC_NOTSUP]
     ELSE LET o == Origin(a.v) IN
          IF o.rc # RC_OK \/ ~o.v.hasSei THEN o
          ELSE [v |-> [o.v EXCEPT !.verified = VerifySig(o.v)], rc |-> RC_OK]

UpdateLink(v) ==
  LET Q(it) == it.used /\ First(it)
      i == FindFirst(v.items, Q)
  IN IF i = 0 \/ v.items[i].ln THEN v
     ELSE [v EXCEPT !.linked = <<v.linked[2], v.items[i].h2>>, !.items[i].ln = TRUE]

-----------------------------------------------------------------------------
(* Verifying the hashes of one GOP. *)
LinkOk(v) == v.linked[1] = "0" \/ v.linked[1] = v.rlink

RECURSIVE WithoutLoop(_, _, _)
WithoutLoop(items, i, marked) ==
  IF i > Len(items) THEN [items |-> items, marked |-> marked, found |-> FALSE]
  ELSE IF items[i].st # "P" THEN WithoutLoop(items, i + 1, marked)
  ELSE IF items[i].t = "S" THEN [items |-> items, marked |-> marked, found |-> FALSE]
  ELSE LET its == [items EXCEPT ![i].st = "N"]
           nx == i + 1 <= Len(its) /\ its[i + 1].t # " " /\ First(its[i + 1]) /\ ~its[i + 1].ln
       IN IF nx THEN [items |-> its, marked |-> marked + 1, found |-> TRUE]
          ELSE WithoutLoop(its, i + 1, marked + 1)
WithoutSei(v) ==
  LET w == WithoutLoop(v.items, 1, 0)
  IN [v |-> [v EXCEPT !.items = w.items,
                      !.latestV = v.latestV + (IF v.signPresent /\ w.marked > 0 THEN 1 ELSE 0)],
      succ |-> w.found, exp |-> -1, rec |-> -1]

\* Index of |h| in |list| beyond |after|; Len(list) + 1 if there is none. Indices start at 1.
RECURSIVE FindHash(_, _, _)
FindHash(list, h, k) == IF k > Len(list) THEN k ELSE IF list[k] = h THEN k ELSE FindHash(list, h, k + 1)

RECURSIVE ListLoop(_, _)
ListLoop(s, list) ==
  IF s.i > Len(s.items) THEN s
  ELSE LET it == s.items[s.i] IN
    IF it.st # "P" \/ ~it.used THEN ListLoop([s EXCEPT !.i = s.i + 1], list)
    ELSE IF it.t = "S" \/ (First(it) /\ ~it.ln) THEN [s EXCEPT !.last = s.i]
    ELSE LET h == IF First(it) THEN it.h2 ELSE it.h1
             k == FindHash(list, h, s.latest + 1)
         IN IF k <= Len(list)
            THEN LET nm == k - s.latest - 1 - s.ninv
                     add == IF nm > 0 THEN nm ELSE 0
                     its == AddMissing([s.items EXCEPT ![s.i].st = IF s.ord THEN "." ELSE "N"], nm, FALSE, s.i)
                 IN ListLoop([s EXCEPT !.items = its, !.i = s.i + add + 1, !.last = s.i + add, !.latest = k,
                                       !.cmp = k, !.ninv = 0, !.ord = TRUE, !.nver = s.nver + 1], list)
            ELSE ListLoop([s EXCEPT !.items[s.i].st = "N", !.i = s.i + 1, !.last = s.i, !.cmp = k,
                                    !.ninv = s.ninv + 1, !.nver = s.nver + 1], list)

WithList(v, ord) ==
  LET s0 == [items |-> v.items, i |-> 1, last |-> 0, latest |-> 0, cmp |-> 1, ninv |-> 0, nver |-> 0, ord |-> ord]
      s == ListLoop(s0, v.list)
      n == Len(v.list)
      its1 == IF s.latest = 0
              THEN AddMissing(s.items, n - s.ninv, s.items[1].h2 # "", 1)
              ELSE s.items
      its2 == IF s.latest # s.cmp THEN its1 ELSE AddMissing(its1, n - s.latest, TRUE, s.last)
  IN [v |-> [v EXCEPT !.items = [its2 EXCEPT ![NextSei(its2)].st = "."]], succ |-> TRUE, exp |-> n, rec |-> s.nver]

WithSei(v) ==
  LET si == NextSei(v.items)
      gopOk == v.computed = v.rgoph
      ord == LinkOk(v)
      vs == IF v.verified = 1 THEN (IF gopOk /\ ord THEN "." ELSE "N") ELSE "N"
  IN IF v.verified = 1 /\ vs # "." /\ v.list # <<>> THEN WithList(v, ord)
     ELSE IF v.verified = -1 THEN WithoutSei([v EXCEPT !.items[si].st = "E"])
     ELSE
       LET exp == IF v.verified = 1 THEN v.numSent ELSE -1
           Used(it) == it.used
           fi == FindFirst(v.items, Used)
           Hit(it) == it.used /\ it.st = "P"
           NotSei(it) == it.used /\ it.st = "P" /\ it.t # "S"
           rec == Count(v.items, NotSei)
           its == [i \in DOMAIN v.items |->
                     IF i = si THEN [v.items[i] EXCEPT !.st = IF v.verified = 1 THEN "." ELSE "N"]
                     ELSE IF Hit(v.items[i]) THEN [v.items[i] EXCEPT !.st = vs] ELSE v.items[i]]
           its2 == IF ~v.firstVal /\ fi > 0 THEN AddMissing(its, exp - rec, First(its[fi]), fi) ELSE its
       IN [v |-> [v EXCEPT !.items = its2], succ |-> FALSE, exp |-> exp, rec |-> rec]

\* The very first validation failed: it may belong to a part of the stream never received.
RECURSIVE RemMiss(_, _, _, _)
RemMiss(items, i, fp, fd) ==
  IF i > Len(items) \/ (fp /\ fd) THEN items
  ELSE IF items[i].st = "M" /\ i = 1 THEN RemMiss(Tail(items), 1, fp, fd)
  ELSE LET d == items[i].dec /\ items[i].st # "U"
           st == IF d THEN "U" ELSE IF items[i].st = "N" THEN "P" ELSE items[i].st
           its == [items EXCEPT ![i].st = st]
           fp2 == fp \/ (i + 1 <= Len(its) /\ its[i + 1].st = "P")
       IN RemMiss(its, i + 1, fp2, fd \/ d)

ValidateAuthenticity(v) ==
  LET Pend(it) == it.st = "P"
      fp == FindFirst(v.items, Pend)
      lostPath == v.lost /\ ~v.transLost /\ fp > 0 /\ v.items[fp].t # "S"
      r == IF lostPath THEN WithoutSei(v) ELSE WithSei(v)
      seiAuth == lostPath \/ v.verified = 1
      v1 == IF lostPath THEN r.v ELSE [r.v EXCEPT !.latestV = r.v.gopCtr]
      Inv(it) == it.used /\ it.st \in {"N", "E"}
      Mis(it) == it.used /\ it.st = "M"
      Val(it) == it.used /\ it.st = "." /\ it.t # "S"
      nInv == Count(v1.items, Inv)
      nMis == Count(v1.items, Mis)
      hasVal == Count(v1.items, Val) > 0
      items2 == ClearUsed(v1.items)
      val0 == IF nInv > 0 \/ ~seiAuth THEN NOT_OK ELSE AUTH_OK
      val1 == IF ~v.firstVal /\ val0 = AUTH_OK
                 /\ ((r.exp > 1 /\ nMis >= r.exp) \/ (r.exp > 0 /\ r.rec = 0 /\ nMis = 0))
              THEN NOT_OK ELSE val0
      val2 == IF val1 = AUTH_OK /\ nMis > 0 /\ r.succ THEN OK_MISSING ELSE val1
      val3 == IF v.firstVal /\ val2 = AUTH_OK /\ ~hasVal THEN SIG_PRESENT ELSE val2
      failFirst == v.firstVal /\ val3 # AUTH_OK /\ ~(val3 = OK_MISSING /\ hasVal)
      val4 == IF failFirst THEN SIG_PRESENT ELSE val3
      exp == IF failFirst THEN -1 ELSE r.exp
      rec == IF failFirst THEN -1 ELSE r.rec
      val5 == IF v1.pkc THEN NOT_OK ELSE val4
      auth == IF v.auth <= SIG_PRESENT THEN val5 ELSE IF val5 < v.auth THEN val5 ELSE v.auth
  IN [v1 EXCEPT !.items = IF failFirst THEN RemMiss(items2, 1, FALSE, FALSE) ELSE items2,
                !.synced = IF v.firstVal THEN val3 = AUTH_OK ELSE TRUE,
                !.auth = auth,
                !.rec = v.rec + rec,
                !.exp = IF v1.lost THEN -1 ELSE IF v.exp # -1 THEN v.exp + exp ELSE v.exp]

-----------------------------------------------------------------------------
(* Which GOPs await validation. *)
RECURSIVE PendLoop(_, _)
PendLoop(v, s) ==
  IF s.i > Len(v.items) \/ s.found THEN s
  ELSE LET it == v.items[s.i]
           has == s.has \/ (it.valid /\ it.hashable /\ it.t = "S")
           cand == it.st = "P" /\ it.hashable
           ends == s.ends + (IF cand /\ First(it) THEN 1 ELSE 0)
           fs == s.fs \/ (cand /\ it.t = "S")
           after == s.after \/ (cand /\ s.lastSei)
           found == (IF ~v.signPresent THEN ends >= 2 ELSE ends > 0 /\ fs) \/ after
       IN PendLoop(v, [i |-> s.i + 1, has |-> has, ends |-> ends, fs |-> fs, after |-> after, found |-> found,
                       lastSei |-> IF cand THEN it.t = "S" ELSE s.lastSei])
HasPending(v) ==
  LET s == PendLoop(v, [i |-> 1, has |-> FALSE, ends |-> 0, fs |-> FALSE, after |-> FALSE, found |-> FALSE, lastSei |-> FALSE])
  IN [found |-> s.found,
      v |-> [v EXCEPT !.lost = FALSE, !.transLost = FALSE, !.hasSei = s.has, !.noEnd = s.after /\ s.ends < 2,
                      !.vanext = ~s.found /\ s.lastSei]]

RECURSIVE ValLoop(_, _)
ValLoop(v, stop) ==
  LET p == HasPending(v) IN
  IF ~p.found \/ stop THEN [v |-> p.v, rc |-> RC_OK]
  ELSE LET w == IF p.v.hasResult THEN p.v
                ELSE [p.v EXCEPT !.auth = SIG_PRESENT, !.exp = 0, !.rec = 0, !.pend = -1]
           d == PrepareForValidation(w)
       IN IF d.rc # RC_OK THEN d
          ELSE LET u == UpdateLink(d.v)
                   x == IF ~u.signPresent THEN [u EXCEPT !.auth = NOT_SIGNED] ELSE ValidateAuthenticity(u)
                   y == [x EXCEPT !.firstVal = ~x.signPresent, !.verified = -1, !.hasResult = TRUE]
               IN ValLoop([y EXCEPT !.pend = NumPending(y)], ~u.signPresent)

\* The hash algorithm is part of the recurrent data; nothing is hashed before it has been received.
WaitAlgo(v) ==
  LET last == v.items[Len(v.items)]
  IN /\ v.signPresent /\ ~v.algoKnown
     /\ (last.t # "S" \/ (last.sei.gold = 0 /\ \A k \in DOMAIN last.sei.tags : last.sei.tags[k] \notin {3, 7}))

MaybeValidate(v) ==
  LET last == v.items[Len(v.items)]
      gold == last.t = "S" /\ last.sei.gold = 1
      feas == last.t # " " /\ ~gold /\ last.hashable /\ last.st = "P" /\ (last.t = "S" \/ First(last))
      d == RecDecoded(v)
      w == d.v
      n == Len(v.items)
  IN IF ~feas \/ ~d.ok \/ WaitAlgo(w)
     THEN IF ~w.firstSei THEN [v |-> w, rc |-> RC_OK]
          ELSE LET x == IF gold
                        THEN CASE w.verified = 1 -> [w EXCEPT !.items[n].st = ".", !.auth = SIG_PRESENT]
                               [] w.verified = 0 -> [w EXCEPT !.items[n].st = "N", !.auth = NOT_OK, !.hasPk = FALSE]
                               [] OTHER -> [w EXCEPT !.items[n].st = "E", !.auth = NOT_OK, !.hasPk = FALSE]
                        ELSE [w EXCEPT !.auth = SIG_PRESENT, !.pkc = FALSE]
                   y == [x EXCEPT !.exp = -1, !.rec = -1, !.hasResult = TRUE]
               IN [v |-> [y EXCEPT !.pend = NumPending(y)], rc |-> RC_OK]
     ELSE ValLoop(w, FALSE)

-----------------------------------------------------------------------------
(* The first Signed Video SEI makes the hash algorithm known. *)
PrepareGolden(v) ==
  LET n == Len(v.items)
      d == DecodeSei(v, v.items[n].sei)
  IN IF d.rc # RC_OK THEN d
     ELSE LET w == HashItem([d.v EXCEPT !.items[n].dec = TRUE], n)
          IN PrepareForValidation([w EXCEPT !.hasSei = TRUE])

LearnAlgo(v) ==
  IF v.algoKnown \/ ~v.signPresent THEN [v |-> v, rc |-> RC_OK]
  ELSE LET d == RecDecoded(v) IN
       IF ~d.ok \/ WaitAlgo(d.v) THEN [v |-> d.v, rc |-> RC_OK]
       ELSE LET w == [d.v EXCEPT !.algoKnown = TRUE]
                last == w.items[Len(w.items)]
                \* (SEIs waiting for the golden SEI are validated first)
                g == IF last.t = "S" /\ last.sei.gold = 1 /\ NextSei(w.items) = Len(w.items) THEN PrepareGolden(w) ELSE [v |-> w, rc |-> RC_OK]
            IN IF g.rc # RC_OK THEN g ELSE [v |-> HashAll(g.v, 1), rc |-> RC_OK]

ReportOf(v) ==
  [ auth |-> v.auth, pkc |-> v.pkc, exp |-> v.exp, rec |-> v.rec, pend |-> v.pend, pkv |-> v.pkv,
    hts |-> v.hts, ts |-> IF v.hts THEN v.ts ELSE "0", ns |-> v.ns, vs |-> v.vs,
    aauth |-> v.aauth, apkc |-> v.apkc, anrec |-> v.anrec, anval |-> v.anval,
    anpend |-> IF v.aauth = NOT_SIGNED THEN v.anrec ELSE Len(v.items), apkv |-> v.apkv,
    ahts |-> v.ahts, afts |-> IF v.ahts THEN v.afts ELSE "0", alts |-> IF v.ahts THEN v.alts ELSE "0",
    vsign |-> v.vsign, prod |-> v.prod ]

\* Removes everything in front of the first pending item; missing items are not counted.
RECURSIVE CleanUp(_, _)
CleanUp(items, n) ==
  IF items = <<>> \/ items[1].st = "P" THEN [items |-> items, n |-> n]
  ELSE CleanUp(Tail(items), IF items[1].st = "M" THEN n ELSE n + 1)

Accumulate(v) ==
  LET auth == IF v.auth > NOT_OK /\ v.vnew THEN VMISMATCH ELSE v.auth
      aauth == IF v.aauth <= SIG_PRESENT THEN auth ELSE IF auth > SIG_PRESENT /\ auth < v.aauth THEN auth ELSE v.aauth
  IN [v EXCEPT !.auth = auth, !.aauth = aauth, !.apkc = v.apkc \/ v.pkc,
               !.apkv = IF v.apkv # PKV_NOT_OK THEN v.pkv ELSE v.apkv,
               !.afts = IF v.hts /\ ~v.ahts THEN v.ts ELSE v.afts,
               !.alts = IF v.hts THEN v.ts ELSE v.alts,
               !.ahts = v.ahts \/ v.hts]

UpdateReport(v) ==
  LET c == CleanUp(v.items, 0)
      w == Accumulate(v)
  IN [w EXCEPT !.ns = NaluStr(v.items), !.vs = ValStr(v.items), !.items = c.items,
               !.anval = v.anval + (IF w.aauth # NOT_SIGNED THEN c.n ELSE 0)]

\* A call that fails keeps the results of what it validated before the failure: they are accumulated.
Failing(v) ==
  LET w == [v EXCEPT !.items[Len(v.items)].st = "E"]
  IN IF v.hasResult THEN Accumulate(w) ELSE w

VFeed(v0, n) ==
  LET v1 == [v0 EXCEPT !.started = TRUE, !.hasReport = TRUE, !.hasResult = FALSE, !.anrec = v0.anrec + 1,
                       !.items = Append(v0.items, NewItem(n)),
                       !.firstSei = ~v0.signPresent /\ n.t = "S",
                       !.signPresent = v0.signPresent \/ n.t = "S"]
      v2 == HashItem(v1, Len(v1.items))
      a == LearnAlgo(v2)
      b == IF a.rc # RC_OK THEN a ELSE MaybeValidate(a.v)
      c == b.v
  IN IF b.rc # RC_OK
     THEN [v |-> Failing(c), rc |-> b.rc, rep |-> NoReport, gone |-> <<>>]
     ELSE IF ~c.hasResult THEN [v |-> c, rc |-> RC_OK, rep |-> NoReport, gone |-> <<>>]
     ELSE LET r == UpdateReport(c)
          IN [v |-> [r EXCEPT !.hts = FALSE], rc |-> RC_OK, rep |-> ReportOf(r),
              gone |-> SubSeq(c.items, 1, Len(c.items) - Len(r.items))]

VReset(v) ==
  [v EXCEPT !.items = <<>>, !.leg = FALSE, !.resetFirst = FALSE, !.signPresent = FALSE, !.firstSei = FALSE, !.algoKnown = FALSE, !.firstVal = TRUE,
            !.hasResult = FALSE, !.hasSei = FALSE, !.vanext = FALSE, !.noEnd = FALSE, !.lost = FALSE,
            !.transLost = FALSE, !.list = <<>>, !.linked = <<"0", "0">>, !.hasRef = FALSE, !.ref = "0", !.synced = FALSE,
            !.verified = -1, !.auth = NOT_SIGNED, !.pkc = FALSE, !.exp = -1, !.rec = -1, !.pend = 0,
            !.pkv = PKV_NF, !.hts = FALSE, !.ts = "0", !.ns = "", !.vs = "", !.aauth = NOT_SIGNED, !.apkc = FALSE,
            !.anrec = 0, !.anval = 0, !.apkv = PKV_NF, !.ahts = FALSE, !.afts = "0", !.alts = "0"]

VSetPk(v, k) ==
  IF k \in {"x", "z"} THEN [v |-> v, rc |-> RC_INVALID]
  ELSE IF v.pk # "" \/ v.started THEN [v |-> v, rc |-> RC_NOTSUP]
  ELSE IF k \in {"y", "c"} THEN [v |-> v, rc |-> RC_EXT]
  ELSE [v |-> [v EXCEPT !.pk = k, !.hasPk = TRUE, !.userPk = TRUE], rc |-> RC_OK]
==============================================================================
