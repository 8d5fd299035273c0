---------------------------- MODULE SignerSystem ----------------------------
(* Every sequence of calls to the signing API, up to |Depth| calls, with a signing plugin that answers  *)
(* at once, later, or not successfully.  The invariants are what a user of the signing side relies on,  *)
(* stated on what was added and what was fetched.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxBuffer, HashListBytes,
  Depth,
  Calls,      \* the calls explored
  Levels, Recurs, MaxSeis, Golds

S == INSTANCE Signer

VARIABLES s, k, run, got, lostSei, hist, cfg

vars == <<s, k, run, got, lostSei, hist, cfg>>
\* run: the pictures added, in order, since the latest (re)start of the stream, with the hashes a SEI must carry
\* got: SEIs fetched, in order; lostSei: SEIs whose signing failed; hist: driver script

Init ==
  \E l \in Levels, r \in Recurs, m \in MaxSeis, g \in Golds :
    /\ cfg = [level |-> l, recur |-> r, maxsei |-> m, gold |-> g]
    /\ s = S!SetGolden(S!SetMaxSei(S!SetRecur(S!SetLevel(S!SetKey(S!SInit, "A").s, l).s, r).s, m).s, g).s
    /\ k = 0 /\ run = <<>> /\ got = <<>> /\ lostSei = 0
    /\ hist = <<"new 0 S", "cfg 0 key A", "cfg 0 level " \o ToString(l), "cfg 0 recur " \o ToString(r),
                "cfg 0 maxsei " \o ToString(m), "cfg 0 golden " \o (IF g THEN "1" ELSE "0")>>

Step(call, line) == call \in Calls /\ k < Depth /\ k' = k + 1 /\ hist' = Append(hist, line) /\ UNCHANGED cfg

Add(t) ==
  /\ Step("add" \o t, "add 0 " \o t \o " " \o ToString(k + 1))
  /\ LET h == t \o ToString(k + 1)
         r == S!SAdd(s, t, h, FALSE, "0", FALSE)
     IN /\ s' = r.s
        /\ run' = IF r.rc = S!SOK /\ S!SPic(t) THEN Append(run, [t |-> t, h |-> h]) ELSE run
        /\ UNCHANGED <<got, lostSei>>
Get ==
  /\ Step("get", "get 0")
  /\ LET a == S!SGet(s, "", TRUE)
         r == IF a.sz = 1 THEN S!SGet(a.s, "", FALSE) ELSE a
     IN /\ s' = r.s
        /\ got' = IF r.sz = 1 THEN Append(got, r.sei) ELSE got
        /\ lostSei' = lostSei + (IF a.rc # S!SOK THEN 1 ELSE 0)
        /\ UNCHANGED run
Eos == /\ Step("eos", "eos 0") /\ LET r == S!SEos(s, S!Collect) IN s' = r.s /\ lostSei' = lostSei + (IF r.rc = S!SEXTERNAL THEN 1 ELSE 0) /\ UNCHANGED <<run, got>>
Gold == /\ Step("gold", "gold 0") /\ s' = S!SGold(s).s /\ UNCHANGED <<run, got, lostSei>>
Plug(what, v) ==
  /\ Step(what, "plug 0 " \o what \o " " \o ToString(v))
  /\ s' = CASE what = "hold" -> [s EXCEPT !.hold = (v = 1)]
            [] what = "release" -> S!SRelease(s, v, "ok")
            [] what = "fail" -> S!SRelease(s, v, "err")
            [] OTHER -> [s EXCEPT !.signfail = TRUE]
  /\ what = "hold" => s.hold # (v = 1)
  /\ what \in {"release", "fail"} => s.held > 0
  /\ what = "signfail" => ~s.signfail
  /\ lostSei' = lostSei + (IF what = "signfail" THEN 1 ELSE 0)
  /\ UNCHANGED <<run, got>>

Next ==
  \/ \E t \in {"I", "P", "p"} : Add(t)
  \/ Get \/ Eos \/ Gold
  \/ Plug("hold", 0) \/ Plug("hold", 1) \/ Plug("release", 1) \/ Plug("fail", 1) \/ Plug("signfail", 0)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* What a SEI must say about the pictures: GOP by GOP, each picture hashed with the I-frame its GOP starts with
RECURSIVE Hashes(_, _, _)
Hashes(q, ref, i) ==
  IF i > Len(q) THEN <<>>
  ELSE IF q[i].t = "I" THEN <<q[i].h>> \o Hashes(q, q[i].h, i + 1)
  ELSE <<ref \o "/" \o q[i].h>> \o Hashes(q, ref, i + 1)
Gops(x) == SelectSeq(x, LAMBDA y : y.gold = 0)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q).num = 0 THEN <<>> ELSE Head(q).goph) \o Flat(Tail(q))
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]

All == got \o s.buf
NoLoss == lostSei = 0 /\ ~\E i \in DOMAIN s.ready : s.ready[i] = "err"
\* Every picture is covered by exactly one SEI, in order, without holes.
EveryPictureIsSigned == (NoLoss /\ "gold" \notin Calls) => Prefix(Flat(All), Hashes(run, "0", 1))
\* ... and what is not covered yet will be covered by the next one.
NothingForgotten ==
  (NoLoss /\ "gold" \notin Calls) => Len(Flat(All)) + s.num = Len(run)
NumbersAgree == \A i \in DOMAIN All : All[i].gold = 0 /\ All[i].num > 0 => All[i].num = Len(All[i].goph)
ListIsWhatIsSigned == \A i \in DOMAIN All : All[i].list # <<>> => (All[i].list = All[i].goph /\ (cfg.level = 1 \/ "gold" \in Calls) /\ Len(All[i].list) * 32 <= HashListBytes)
\* SEIs come out in the order in which they were generated, numbered without holes.
Fifo == LET q == Gops(All) IN \A i \in 1 .. Len(q) - 1 : q[i + 1].gop > q[i].gop /\ (NoLoss => q[i + 1].gop = q[i].gop + 1)
\* The SEI of a GOP links to the I-frame of the GOP before.
IFrames == LET q == SelectSeq(run, LAMBDA x : x.t = "I") IN [i \in DOMAIN q |-> q[i].h]
Linked ==
  NoLoss => \A i \in DOMAIN All : \A j \in DOMAIN IFrames :
    (All[i].gold = 0 /\ All[i].num > 0 /\ All[i].goph[1] = IFrames[j]) => All[i].link = (IF j = 1 THEN "0" ELSE IFrames[j - 1])
\* Only SEIs with a signature are handed out; the number waiting is bounded.
Signed == s.ncomp <= Len(s.buf) /\ Len(s.buf) <= MaxBuffer /\ s.ncomp + Len(s.ready) + s.held = Len(s.buf)
Capped == \A i \in DOMAIN All : cfg.maxsei > 0 /\ All[i].list # <<>> => All[i].psize <= cfg.maxsei
\* The public key is in the first SEI; in every golden SEI, and in no other when golden SEIs are used.
FirstHasKey ==
  /\ (~cfg.gold /\ got # <<>> /\ got[1].num > 0 /\ run[1].t # "p") => got[1].pk = "A"
  /\ \A i \in DOMAIN All : All[i].gold = 1 => All[i].pk = "A"
  /\ \A i \in DOMAIN All : cfg.gold /\ All[i].gold = 0 => All[i].pk = ""
Emit == k = Depth => PrintT("BEH " \o ToString(hist))
=============================================================================
