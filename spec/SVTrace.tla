------------------------------- MODULE SVTrace -------------------------------
(* Conformance: replays a recorded sequence of API calls on the specification (Signer, Validator) and *)
(* compares every observable result.  The specification is deterministic, hence the recording has one *)
(* explanation; each difference is printed and the replay goes on with the specification's own state. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MaxBuffer, HashListBytes
S == INSTANCE Signer
V == INSTANCE Legacy
N == INSTANCE Vendor
H == INSTANCE Nalu

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, objs, scn, mon, bad, held

vars == <<i, objs, scn, mon, bad, held>>

NoObj == [kind |-> "-", sg |-> <<<<>>>>, mq |-> <<>>, md |-> <<>>, ms |-> 0, mv |-> {}, mp |-> {}, mok |-> TRUE, ma |-> 0, ml |-> FALSE, raw |-> FALSE, hit |-> FALSE]
Has(r, f) == f \in DOMAIN r
B(x) == IF x THEN 1 ELSE 0

\* a mismatch is a triple <<category, expected, observed>>
Cmp(cat, want, got) == IF want = got THEN <<>> ELSE <<<<cat, want, got>>>>

\* what the NAL Unit of an event is; the driver knows which SEIs are Signed Video's
T(e) ==
  IF ~Has(e, "hd") THEN e.t
  ELSE LET x == H!Class(e.cx, e.hd) IN IF e.op = "feeds" /\ x = "z" THEN "S" ELSE x
\* the driver was told what it builds: both have to agree
Named(e) == IF Has(e, "nul") /\ e.nul = 1 THEN <<>> ELSE Cmp("driver.type", IF e.t \in {"Z", "y"} THEN "z" ELSE e.t, T(e))
SigOf(k, f) == CASE k = "A" -> f.sigA [] k = "B" -> f.sigB [] OTHER -> f.sigR

CmpSei(w, g) ==
  Cmp("sei.format", 1, g.ok) \o
  (IF g.ok # 1 THEN <<>> ELSE
   Cmp("sei.format", 1, g.fmt) \o
   Cmp("sei.format", IF Len(g.hd) = 2 THEN <<78, 1>> ELSE <<6>>, g.hd) \o
   (IF w.epb = 1 THEN Cmp("sei.startcode", 0, g.esc) ELSE <<>>) \o
   Cmp("sei.epb", w.epb, g.epb) \o Cmp("sei.golden", w.gold, g.gold) \o
   Cmp("sei.tags", w.tags, g.tags) \o
   Cmp("sei.gop", w.gop, g.gop) \o Cmp("sei.num", w.num, g.num) \o
   Cmp("sei.hts", w.hts, g.hts) \o Cmp("sei.ts", w.ts, g.ts) \o
   Cmp("sei.link", w.link, g.link) \o
   Cmp("sei.goph", w.goph, g.goph) \o
   Cmp("sei.list", w.list, g.list) \o
   Cmp("sei.pk", w.pk, g.pk) \o Cmp("sei.prod", w.prod, g.prod) \o Cmp("sei.crypto", w.cr, g.cr) \o
   Cmp("sei.attestation", w.att, g.att) \o Cmp("sei.chain", w.chain, g.chain) \o
   Cmp("sei.version", IF w.gold = 1 THEN "" ELSE IOEnv.SVVERSION, g.ver) \o
   Cmp("sei.maxsig", w.maxsig, g.maxsig) \o
   Cmp("sei.signature", 1, SigOf(w.signer, g)))

RepFields == {"auth", "pkc", "exp", "rec", "pend", "hts", "ts", "ns", "vs", "aauth", "apkc",
              "anrec", "anval", "anpend", "ahts", "afts", "alts", "vsign", "prod", "pkv", "apkv"}
Num(x) == IF x \in BOOLEAN THEN B(x) ELSE x
RECURSIVE CmpFields(_, _, _)
CmpFields(fs, w, g) ==
  IF fs = {} THEN <<>>
  ELSE LET f == CHOOSE x \in fs : TRUE
           want == IF f \in {"pkc", "hts", "apkc", "ahts"} THEN B(w[f]) ELSE w[f]
       IN Cmp("rep." \o f, want, g[f]) \o CmpFields(fs \ {f}, w, g)
CmpRep(w, got) ==
  IF Has(w, "none") THEN Cmp("rep.presence", 0, IF Has(got, "none") THEN 0 ELSE 1)
  ELSE IF Has(got, "none") THEN Cmp("rep.presence", 1, 0)
  ELSE CmpFields(RepFields, w, got) \o Cmp("rep.vthis", IOEnv.SVVERSION, got.vthis)

-----------------------------------------------------------------------------
(* One event: [o: next object, d: differences] *)
Cfg(o, e) ==
  LET s == o.st
      nm == e.name
      r == IF o.kind = "V"
           THEN IF nm = "pubkey" THEN LET w == V!VSetPk(s, e.val) IN [s |-> w.v, rc |-> w.rc]
                ELSE [s |-> s, rc |-> e.rc]
           ELSE IF o.kind = "L" THEN [s |-> s, rc |-> 0]
           ELSE CASE nm \in {"key", "oldkey"} -> S!SetKey(s, e.val)
                  [] nm = "level" -> S!SetLevel(s, e.iv)
                  [] nm = "recur" -> S!SetRecur(s, e.iv)
                  [] nm = "addpk" -> S!SetAddPk(s, e.iv # 0)
                  [] nm = "epb" -> S!SetEpb(s, e.iv # 0)
                  [] nm = "golden" -> S!SetGolden(s, e.iv # 0)
                  [] nm = "maxsei" -> S!SetMaxSei(s, e.iv)
                  [] nm = "hash" -> S!SetHash(s, e.val)
                  [] nm = "prod" -> S!SetProd(s, e.prod)
                  [] nm = "attest" -> S!SetAttest(s, e.att, e.chain, e.an, IF e.cut = 1 THEN 0 ELSE e.cn)
                  [] OTHER -> [s |-> s, rc |-> e.rc]
  IN [o |-> [o EXCEPT !.st = r.s], d |-> Cmp("cfg." \o nm, r.rc, e.rc)]

Add(o, e) ==
  LET r == IF e.nul = 1 THEN [s |-> o.st, rc |-> -10]
           ELSE S!SAdd(o.st, T(e), e.h, e.hts = 1, e.ts, e.stop > 0)
  IN [o |-> [o EXCEPT !.st = r.s], d |-> Named(e) \o Cmp("add.rc", r.rc, e.rc)]

\* The signer of the legacy format is the driver's own: what it covers is what the format says.
LSInit == [ctr |-> 0, ref |-> "", hs |-> <<>>]
LAdd(o, e) ==
  LET s == o.st
      w == (IF s.ref = "" THEN "0" ELSE s.ref) \o "/" \o e.h
      all == Append(s.hs, IF s.ref = "" THEN e.h ELSE w)
  IN IF T(e) = "I"
     THEN [o |-> [o EXCEPT !.st = [ctr |-> s.ctr + 1, ref |-> e.h, hs |-> <<e.h>>]],
           d |-> Cmp("legacy.gop", s.ctr + 1, e.sei.gop) \o Cmp("legacy.num", Len(all), e.sei.num) \o
                 Cmp("legacy.goph", all, e.sei.goph) \o (IF e.sei.hl = 1 THEN Cmp("legacy.list", all, e.sei.list) ELSE <<>>)]
     ELSE [o |-> IF V!IsPicT(T(e)) THEN [o EXCEPT !.st.hs = Append(@, w)] ELSE o, d |-> <<>>]

GotSei(o, e, w) ==
  IF Has(w, "none") THEN Cmp("get.sei", 0, IF Has(e, "sei") THEN 1 ELSE 0)
  ELSE IF ~Has(e, "sei") THEN Cmp("get.sei", 1, 0)
  ELSE CmpSei(w, e.sei)

Get(o, e) ==
  LET pk == IF Has(e, "hd") THEN H!Shown(H!Class(e.cx, e.hd)) ELSE e.peek
      a == S!SGet(o.st, pk, TRUE)
      d1 == Cmp("get.rc", a.rc, e.rc) \o Cmp("get.size", a.sz, e.szp) \o Cmp("get.pend", a.pend, e.pend1)
  IN IF e.probe = 1 \/ a.rc # 0 \/ a.sz = 0
     THEN [o |-> [o EXCEPT !.st = a.s], d |-> d1 \o GotSei(o, e, S!NoSeiGot)]
     ELSE LET b == S!SGet(a.s, pk, FALSE)
              d2 == IF Has(e, "rc2")
                    THEN Cmp("get.rc", b.rc, e.rc2) \o Cmp("get.size", 1, e.same) \o Cmp("get.pend", b.pend, e.pend)
                         \o (IF Has(e, "offok") THEN Cmp("get.offset", 1, e.offok) ELSE <<>>)
                    ELSE <<>>
          IN [o |-> [o EXCEPT !.st = b.s], d |-> d1 \o d2 \o GotSei(o, e, b.sei)]

Prep(o, e) ==
  LET a == S!SPrep(o.st)
  IN [o |-> [o EXCEPT !.st = a.s],
      d |-> Cmp("prep.rc", a.rc, e.rc) \o Cmp("prep.instr", a.instr, e.instr) \o GotSei(o, e, a.sei)]

\* Bytes nobody vouches for. What the session makes of them is not predicted, from there on only the guarantees
\* are judged; what it answers is one of the documented codes.
Codes == {0, -1, -10, -12, -15, -20, -21, -30, -100}
Answer(e) == IF e.rc \in Codes THEN <<>> ELSE <<<<"feed.code", "a documented code", ToString(e.rc)>>>>
Sane(rp) ==
  \/ Has(rp, "none")
  \/ /\ rp.auth \in 0 .. 5 /\ rp.aauth \in 0 .. 5 /\ rp.pkv \in 0 .. 2 /\ rp.apkv \in 0 .. 2
     /\ rp.pend >= 0 /\ rp.anval >= 0 /\ rp.anpend >= 0 /\ rp.anrec >= 0
     /\ Len(rp.na) = Len(rp.va) \/ "" \in {rp.ns, rp.vs}
FeedB(o, e) ==
  IF e.skip = 1 THEN [o |-> o, d |-> <<>>]
  ELSE [o |-> [o EXCEPT !.raw = TRUE],
        d |-> Answer(e) \o (IF e.norep = 1 THEN <<>> ELSE Cmp("feed.report", TRUE, Sane(e.rep)))]

Feed(o, e) ==
  IF e.skip = 1 THEN [o |-> o, d |-> <<>>]
  ELSE LET n == IF e.op = "feed" THEN [t |-> T(e), h |-> e.h, sei |-> V!NoSei]
                ELSE [t |-> T(e), h |-> "S", sei |-> IF T(e) = "S" THEN e.sei ELSE V!NoSei]
           r == V!XFeed(o.st, n)
       IN IF V!Mixed(o.st, n) THEN FeedB(o, e) ELSE [o |-> [o EXCEPT !.st = r.v],
           d |-> (IF e.op = "feed" THEN Named(e) ELSE <<>>) \o Cmp("feed.rc", r.rc, e.rc) \o
                 (IF e.norep = 1 THEN <<>> ELSE CmpRep(r.rep, e.rep))]

Report(o, e) ==
  IF o.kind # "V" \/ o.raw THEN [o |-> o, d |-> <<>>]
  ELSE [o |-> o, d |-> CmpRep(IF o.st.hasReport THEN V!ReportOf(o.st) ELSE V!NoReport, e.rep)]

Simple(o, r, e, cat) == [o |-> [o EXCEPT !.st = r.s], d |-> Cmp(cat, r.rc, e.rc)]

\* signed_video_compare_versions(): 1: the first is newer, 2: the second, 0: equal, -1: not comparable
Sign(x, y) == IF x > y THEN 1 ELSE IF x < y THEN 2 ELSE 0
RECURSIVE CmpParts(_, _, _)
CmpParts(a, b, k) == IF k > 3 THEN 0 ELSE IF a[k] # b[k] THEN Sign(a[k], b[k]) ELSE CmpParts(a, b, k + 1)
CmpVersion(a, b) == IF Len(a) # 3 \/ Len(b) # 3 THEN -1 ELSE CmpParts(a, b, 1)

Step(o, e) ==
  CASE e.op = "new" ->
         [o |-> [kind |-> e.kind, sg |-> <<<<>>>>, mq |-> <<>>, md |-> <<>>, ms |-> 0, mv |-> {}, mp |-> {}, mok |-> TRUE, ma |-> 0, ml |-> FALSE, raw |-> FALSE, hit |-> FALSE, st |-> CASE e.kind = "S" -> S!SInit [] e.kind = "L" -> LSInit [] OTHER -> V!VInit], d |-> Cmp("new", 0, e.rc)]
    [] e.op = "cmpver" -> [o |-> o, d |-> Cmp("cmpver", CmpVersion(e.a, e.b), e.r)]
    [] o.kind = "-" -> [o |-> o, d |-> <<>>]
    [] e.op = "free" -> [o |-> NoObj, d |-> <<>>]
    [] e.op = "cfg" -> IF o.raw THEN [o |-> o, d |-> <<>>] ELSE Cfg(o, e)
    [] e.op = "add" /\ o.kind = "S" -> Add(o, e)
    [] e.op = "add" /\ o.kind = "L" -> LAdd(o, e)
    [] e.op = "get" /\ o.kind = "S" -> Get(o, e)
    [] e.op = "prep" /\ o.kind = "S" -> Prep(o, e)
    [] e.op = "eos" /\ o.kind = "S" -> Simple(o, S!SEos(o.st, S!Collect), e, "eos.rc")
    [] e.op = "gold" /\ o.kind = "S" -> Simple(o, S!SGold(o.st), e, "gold.rc")
    [] e.op = "reset" ->
         IF o.kind = "S" THEN Simple(o, S!SReset(o.st), e, "reset.rc")
         ELSE [o |-> [o EXCEPT !.st = V!VReset(o.st)], d |-> Cmp("reset.rc", 0, e.rc)]
    [] e.op = "feedb" /\ o.kind = "V" -> FeedB(o, e)
    [] e.op \in {"feed", "feeds"} /\ o.kind = "V" -> IF o.raw THEN FeedB(o, e) ELSE Feed(o, e)
    [] e.op = "report" -> Report(o, e)
    [] e.op = "isgold" -> [o |-> o, d |-> IF Has(e.sei, "none") THEN <<>> ELSE Cmp("isgold", e.sei.gold, e.r)]
    [] e.op = "plug" ->
         [o |-> [o EXCEPT !.st = CASE e.what = "hold" -> [o.st EXCEPT !.hold = (e.v = 1)]
                                   [] e.what = "release" -> S!SRelease(o.st, e.v, "ok")
                                   [] e.what = "fail" -> S!SRelease(o.st, e.v, "err")
                                   [] e.what = "signfail" -> [o.st EXCEPT !.signfail = TRUE]
                                   [] OTHER -> o.st], d |-> <<>>]
    [] OTHER -> [o |-> o, d |-> <<>>]

-----------------------------------------------------------------------------
(* The guarantees of SVSystem, evaluated on what the code did: no prediction of the specification is   *)
(* involved.  Ghosts: |sg| the pictures signed, in order (a new sequence after each reset); |mq| what   *)
(* was fed and not yet told about; |md| what was told about; |ms| SEIs fed.                             *)
(* |mon| = "ok": an untouched stream; "seg": a part of one; "adv": manipulated without the private key. *)
MPic(t) == t \in {"I", "i", "P", "p"}
NonMissing(na, va) == { k \in DOMAIN na : va[k] # "M" }
RECURSIVE Prefix(_, _)
\* the verdicts in front of the first pending one, without the missing ones
Prefix(va, k) ==
  IF k > Len(va) \/ va[k] = "P" THEN <<>>
  ELSE IF va[k] = "M" THEN Prefix(va, k + 1) ELSE <<va[k]>> \o Prefix(va, k + 1)

AllSigned == UNION { { objs[k].sg[j] : j \in DOMAIN objs[k].sg } : k \in { x \in DOMAIN objs : objs[x].kind \in {"S", "L"} } }
SignersFine == \A k \in DOMAIN objs : objs[k].kind = "S" => ~objs[k].hit
Contiguous(a, b) == \E k \in 0 .. Len(b) - Len(a) : \A j \in DOMAIN a : a[j] = b[k + j]
IsSignedName(h) == \E q \in AllSigned : \E k \in DOMAIN q : q[k] = h
Names(q) == [k \in DOMAIN q |-> q[k].h]
IsP(x) == MPic(x.t)

\* An untouched stream (or a part of one) is questioned by a report.
Questioned(rp, pics, seis) ==
  \/ rp.auth \notin {V!NOT_SIGNED, V!SIG_PRESENT, V!AUTH_OK}
  \/ rp.aauth \notin {V!NOT_SIGNED, V!SIG_PRESENT, V!AUTH_OK}
  \/ mon \in {"ok", "lok"} /\ seis > 0 /\ (rp.aauth # V!AUTH_OK \/ rp.auth # V!AUTH_OK)
  \/ rp.pkc = 1
  \/ \E k \in DOMAIN rp.va : rp.va[k] \notin ({".", "_", "P", "U"} \cup (IF mon = "seg" THEN {"M"} ELSE {}))
  \/ \E k \in DOMAIN pics : pics[k].st # "."

\* An allocation fails in a call (see below), and the call says so.
Hit(e) == Has(e, "hit")
Told(e) == (Has(e, "rc") /\ e.rc # 0) \/ (Has(e, "rc2") /\ e.rc2 # 0)
Failed(e) == Hit(e) /\ Told(e)
Mo(e) == IF Failed(e) /\ mon # "" THEN "adv" ELSE mon

\* [o: the object with its ghosts moved on, m: names of the guarantees broken]
MonFeed(o, e) ==
  LET me == [t |-> T(e), h |-> IF e.op \in {"feed", "feedb"} THEN e.h ELSE "S"]
      q == Append(o.mq, me)
      gop == IF T(e) = "S" THEN (IF e.sei.ok = 1 THEN 1 - e.sei.gold ELSE 0) ELSE 0
      late == T(e) = "S" /\ V!IsLegacySei([t |-> "S", sei |-> e.sei]) /\ ~\E k \in DOMAIN e.sei.tags : e.sei.tags[k] = 2
      o1 == [o EXCEPT !.mq = q, !.ms = o.ms + gop, !.ml = o.ml \/ late]
      rp == e.rep
  IN IF e.norep = 1 THEN [o |-> [o EXCEPT !.mok = FALSE], m |-> {}]
     ELSE LET b0 == IF Mo(e) \in {"ok", "lok", "seg"} /\ e.rc # 0 THEN {"authentic"} ELSE {} IN
     IF Has(rp, "none")
     THEN [o |-> o1, m |-> b0 \cup (IF Mo(e) = "ok" /\ gop = 1 THEN {"authentic"} ELSE {})]
     ELSE LET n == Len(SelectSeq(rp.va, LAMBDA c : c # "M"))
              gone == Prefix(rp.va, 1)
              told == [k \in 1 .. Len(gone) |-> [t |-> q[k].t, h |-> q[k].h, st |-> gone[k]]]
              md == IF rp.aauth <= V!SIG_PRESENT THEN <<>> ELSE o.md \o told
              pics == SelectSeq(md, IsP)
              names == Names(pics)
          IN IF n # Len(q) THEN [o |-> [o1 EXCEPT !.mok = FALSE], m |-> b0 \cup (IF o1.ml \/ o1.hit \/ Hit(e) THEN {} ELSE {"list"})]
             \* (with the public key received late, what a legacy session found until then is not told)
             ELSE [o |-> [o1 EXCEPT !.mq = SubSeq(q, Len(gone) + 1, Len(q)), !.md = md, !.ma = rp.aauth],
                   m |-> b0
                     \* a verdict on all received so far never gets better, and is never withdrawn
                     \cup (IF o.ma > V!SIG_PRESENT /\ (rp.aauth > o.ma \/ rp.aauth <= V!SIG_PRESENT) THEN {"verdict"} ELSE {})
                     \cup (IF rp.apkc = 0 /\ \E k \in DOMAIN pics : pics[k].st = "." /\ ~IsSignedName(pics[k].h)
                           THEN {"foreign"} ELSE {})
                     \cup (IF rp.aauth = V!AUTH_OK /\ SignersFine /\ ~\E sq \in AllSigned : Contiguous(names, sq) THEN {"segment"} ELSE {})
                     \cup (IF rp.aauth = V!OK_MISSING /\ \E k \in DOMAIN names : ~IsSignedName(names[k])
                           THEN {"missing"} ELSE {})
                     \cup (IF Mo(e) \in {"ok", "lok", "seg"} /\ Questioned(rp, pics, o1.ms) THEN {"authentic"} ELSE {})]

\* The public key is said to be the manufacturer's. |mv|: attestations with their certificates, |mp|: public keys received
OriginProven(o, rp) ==
  /\ rp.prod[4] = N!AXIS
  /\ \E x \in o.mv, p \in o.mp : N!Attests(x[1], x[2], p) /\ rp.prod[3] = N!Chain(x[2]).ser
Carries(s, t) == \E k \in DOMAIN s.tags : s.tags[k] = t
MonOrigin(o, e) ==
  LET got == e.op = "feeds" /\ e.skip = 0 /\ T(e) = "S"
      o1 == IF ~got THEN o ELSE IF e.sei.ok = 0 THEN o
            ELSE [o EXCEPT !.mv = @ \cup (IF Carries(e.sei, 129) THEN {<<e.sei.att, e.sei.chain>>} ELSE {}),
                           !.mp = @ \cup {e.sei.pk}]
      rp == e.rep
  IN IF e.skip = 1 \/ e.norep = 1 \/ Has(rp, "none") THEN [o |-> o1, m |-> {}]
     ELSE [o |-> o1, m |-> IF 2 \in {rp.pkv, rp.apkv} /\ ~OriginProven(o1, rp) THEN {"origin"} ELSE {}]

Mon0(o0, o, e) ==
  IF e.op = "new" \/ o.kind = "-" THEN [o |-> o, m |-> {}]
  ELSE IF o.kind \in {"S", "L"}
  THEN [o |-> IF e.op = "add" /\ (e.rc = 0 \/ o.hit) /\ e.nul = 0 /\ e.stop = 0 /\ MPic(T(e))
              THEN [o EXCEPT !.sg[Len(o.sg)] = Append(@, e.h)]
              ELSE IF e.op = "reset" THEN [o EXCEPT !.sg = Append(@, <<>>)] ELSE o, m |-> {}]
  ELSE IF e.op = "reset" THEN [o |-> [o EXCEPT !.mq = <<>>, !.md = <<>>, !.ms = 0, !.ma = 0, !.ml = FALSE], m |-> {}]
  ELSE IF mon = "" \/ ~o.mok \/ e.op \notin {"feed", "feeds", "feedb"} THEN [o |-> o, m |-> {}]
  ELSE IF e.skip = 1 THEN [o |-> o, m |-> {}]
  ELSE MonFeed(o, e)

Mon(o0, o, e) ==
  LET a == Mon0(o0, o, e) IN
  IF o.kind = "V" /\ ~o.raw /\ e.op \in {"feed", "feeds"}
  THEN LET b == MonOrigin(a.o, e) IN [o |-> b.o, m |-> a.m \cup b.m]
  ELSE a

(* An allocation fails in a call ("hit").  The call says so with a documented code, and what the session does after *)
(* that is not predicted (the guarantees are still judged; an untouched stream may be questioned though).  A call     *)
(* that does not say so does what the specification says.  Other sessions are not affected.                           *)
OneCode(e, f) == IF Has(e, f) THEN (IF e[f] \in Codes THEN <<>> ELSE <<<<"fault.code", "a documented code", ToString(e[f])>>>>) ELSE <<>>
\* the strings of a report, for which there was no memory
Blank(e) == Hit(e) /\ e.op \in {"feed", "feeds"} /\ (IF e.skip = 1 \/ e.norep = 1 THEN FALSE ELSE IF Has(e.rep, "none") THEN FALSE ELSE "" \in {e.rep.ns, e.rep.vs})
\* what a SEI says about the stream cannot be decoded: it is as if not received yet
Waits(o, e) == Hit(e) /\ o.kind = "V" /\ e.op \in {"feed", "feeds"} /\ ~o.st.algoKnown
FailStep(o, e) ==
  IF e.op = "new" THEN [o |-> NoObj, d |-> OneCode(e, "rc")]
  ELSE IF e.op = "free" THEN [o |-> NoObj, d |-> <<>>]
  ELSE [o |-> [o EXCEPT !.raw = TRUE, !.hit = TRUE],
        d |-> OneCode(e, "rc") \o OneCode(e, "rc2") \o
              (IF e.op \in {"feed", "feeds", "feedb"} /\ e.skip = 0 /\ e.norep = 0
               THEN Cmp("feed.report", TRUE, Sane(e.rep)) ELSE <<>>)]
\* There is no memory to tell that NAL Units are missing. The code documents that this may go untold.
Untold(e, r) ==
  /\ Hit(e) /\ r.o.kind = "V" /\ r.d # <<>> /\ e.op \in {"feed", "feeds"}
  /\ ~Has(e.rep, "none")
  /\ \E k \in DOMAIN r.d : r.d[k][1] = "rep.vs" /\ Len(r.d[k][2]) > Len(r.d[k][3])
F2(o, e) == LET r == Step(o, e) IN
  IF Untold(e, r) THEN [o |-> [o EXCEPT !.raw = TRUE, !.hit = TRUE, !.mok = FALSE], d |-> <<>>] ELSE r
FStep(o, e) ==
  IF e.op = "fault" THEN [o |-> o, d |-> <<>>]
  ELSE IF e.op = "report" /\ Hit(e) THEN [o |-> o, d |-> <<>>]
  ELSE IF e.op = "new" /\ Hit(e) /\ ~Told(e)
  THEN LET r == Step(o, e) IN [r EXCEPT !.o = [@ EXCEPT !.raw = TRUE, !.hit = TRUE]]
  ELSE IF Failed(e) \/ Blank(e) \/ Waits(o, e) \/ (o.raw /\ e.op # "new" /\ (o.kind = "S" \/ e.op = "free")) THEN FailStep(o, e)
  ELSE IF Hit(e) THEN F2(o, e) ELSE Step(o, e)

PrintMon(sc, e, ms) == \A x \in ms : PrintT(<<"MISMATCH", sc, e.n, e.op, "mon." \o x, "holds", "broken">>)

RECURSIVE Report1(_, _, _)
Report1(sc, e, d) ==
  IF d = <<>> THEN TRUE
  ELSE PrintT(<<"MISMATCH", sc, e.n, e.op, Head(d)[1], ToString(Head(d)[2]), ToString(Head(d)[3])>>)
       /\ Report1(sc, e, Tail(d))

(* Memory.  What the sessions hold on to is accounted for by the specification: the NAL Units that wait to be *)
(* validated and the SEIs that wait to be signed or fetched.  |held|: the number of live allocations when the  *)
(* specification held this much, at this point of a recurring history; it never grows.  When all sessions are  *)
(* gone, nothing is left ("memend": what every further run of the scenario leaves behind).                     *)
Holding ==
  [k \in 0 .. 7 |->
    IF objs[k].kind = "V" THEN [n \in 1 .. Len(objs[k].st.items) |-> objs[k].st.items[n].t]
    ELSE IF objs[k].kind = "S" THEN [n \in 1 .. Len(objs[k].st.buf) |-> objs[k].st.buf[n].tags] ELSE <<>>]
Held(e) == LET w == {x \in held : x[1] = e.at /\ x[2] = Holding} IN IF w = {} THEN -1 ELSE (CHOOSE x \in w : TRUE)[3]
MemDiff(e) ==
  IF e.op = "memend" THEN (IF e.live > 0 THEN <<<<"mem.left", 0, e.live>>>> ELSE <<>>)
  ELSE IF Held(e) >= 0 /\ e.live > Held(e) THEN <<<<"mem.grows", Held(e), e.live>>>> ELSE <<>>

Init == held = {} /\ i = 1 /\ objs = [k \in 0 .. 7 |-> NoObj] /\ scn = "" /\ mon = "" /\ bad = 0
Next ==
  /\ i <= Len(Events)
  /\ i' = i + 1
  /\ LET e == Events[i] IN
     IF e.op \in {"mem", "memend"}
     THEN /\ held' = IF e.op = "mem" /\ Held(e) < 0 THEN held \cup {<<e.at, Holding, e.live>>} ELSE held
          /\ bad' = bad + Len(MemDiff(e))
          /\ Report1(scn, e, MemDiff(e))
          /\ UNCHANGED <<objs, scn, mon>>
     ELSE
     IF e.op = "scn" THEN held' = {} /\ objs' = [k \in 0 .. 7 |-> NoObj] /\ scn' = e.id /\ mon' = e.mon /\ bad' = bad
     ELSE LET r == FStep(objs[e.o], e)
              g == Mon(objs[e.o], r.o, e)
          IN /\ objs' = [objs EXCEPT ![e.o] = g.o]
             /\ scn' = scn /\ held' = held
             /\ mon' = IF (Failed(e) \/ (Hit(e) /\ (e.op = "new" \/ Waits(objs[e.o], e) \/ Blank(e)))) /\ mon # "" THEN "adv" ELSE mon
             /\ bad' = bad + Len(r.d) + Cardinality(g.m)
             /\ Report1(scn, e, r.d)
             /\ PrintMon(scn, e, g.m)

Spec == Init /\ [][Next]_vars
View == <<i, bad>>
Done == PrintT(<<"TRACEDONE", Len(Events), TLCGet("stats").diameter>>)
Finished == TLCGet("stats").diameter = Len(Events) + 1 => TRUE
==============================================================================
