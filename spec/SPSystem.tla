------------------------------- MODULE SPSystem -------------------------------
(* Callers and workers of the threaded signing plugin in all interleavings.  Each session hands in a bounded *)
(* number of hashes; signing may fail.  What a session has collected (got) is compared with what it handed   *)
(* in (acc).                                                                                                 *)
EXTENDS SigningPlugin, TLC

CONSTANTS Central,      \* {TRUE}: with a central engine; {FALSE}: private ones
          Hashes,       \* hashes per session
          Depth,        \* length of a behaviour; 0: no bound, no history
          Exits         \* {TRUE}: the central engine may be ended at any time

VARIABLES p, acc, got, gone, n, hist
vars == <<p, acc, got, gone, n, hist>>

Log(x) == hist' = IF Depth = 0 THEN hist ELSE Append(hist, x)
Id(s, k) == s * 100 + k * 10

Init == /\ p = Init0(TRUE) /\ acc = [s \in Sessions |-> <<>>] /\ got = [s \in Sessions |-> <<>>]
        /\ gone = [s \in Sessions |-> FALSE] /\ n = [s \in Sessions |-> 0] /\ hist = <<>>

CInit == /\ Central = {TRUE} /\ ~p.cen /\ ~Busy(p, 0) /\ \A s \in Sessions : p.ses[s] = NoSession /\ n[s] = 0
         /\ p' = DoInit(p, "A", FALSE).p /\ Log(<<"init", 0, 0>>) /\ UNCHANGED <<acc, got, gone, n>>
CExit == /\ Exits = {TRUE} /\ p.cen
         /\ p' = DoExit(p, 0).p /\ Log(<<"exit", 0, 0>>) /\ UNCHANGED <<acc, got, n>> /\ gone' = [s \in Sessions |-> gone[s] \/ p.ses[s] # NoSession]
CSetup(s) == /\ p.ses[s] = NoSession /\ ~gone[s] /\ ~Busy(p, s) /\ (Central = {TRUE} => p.cen) /\ acc[s] = <<>>
             /\ p' = DoSetup(p, s, "A", FALSE).p /\ Log(<<"setup", s, 0>>) /\ UNCHANGED <<acc, got, gone, n>>
CSign(s) == /\ p.ses[s] # NoSession /\ ~gone[s] /\ n[s] < Hashes
            /\ \E bad \in {0, 9} :
                 LET h == Id(s, n[s]) + bad
                     x == DoSign(p, s, h, 32, bad = 9)
                 IN /\ p' = x.p /\ Log(<<"sign", s, h>>)
                    /\ n' = [n EXCEPT ![s] = @ + 1]
                    /\ acc' = [acc EXCEPT ![s] = IF x.r.rc = OK THEN Append(@, h) ELSE @]
            /\ UNCHANGED <<got, gone>>
CGet(s) == /\ p.ses[s] # NoSession /\ ~gone[s]
           /\ LET x == DoGet(p, s, FALSE) IN
                /\ p' = x.p /\ Log(<<"get", s, 0>>)
                /\ got' = [got EXCEPT ![s] = IF x.r.rc = 1 THEN Append(@, IF x.r.err = OK THEN x.r.h ELSE 0 - 1) ELSE @]
                /\ gone' = [gone EXCEPT ![s] = @ \/ (x.r.rc = 0 /\ x.r.err # OK)]        \* told that there is nothing more to get
           /\ UNCHANGED <<acc, n>>
CDrop(s) == /\ p.ses[s] # NoSession
            /\ p' = DoDrop(p, s).p /\ Log(<<"drop", s, 0>>) /\ gone' = [gone EXCEPT ![s] = TRUE]
            /\ UNCHANGED <<acc, got, n>>
Work(e) == /\ \/ CanTake(p, e) /\ p' = Take(p, e)
              \/ CanBegin(p, e) /\ p' = Begin(p, e)
              \/ CanEnd(p, e) /\ p' = End(p, e, p.eng[e].cur[2] % 10 # 9)
              \/ CanPut(p, e) /\ p' = Put(p, e)
           /\ (IF p.eng[e].ph \in {"taken", "signed"} THEN UNCHANGED hist ELSE Log(<<"w", e, 0>>))
           /\ UNCHANGED <<acc, got, gone, n>>

Next == /\ Depth = 0 \/ Len(hist) < Depth
        /\ \/ CInit \/ CExit \/ \E s \in Sessions : CSetup(s) \/ CSign(s) \/ CGet(s) \/ CDrop(s)
           \/ \E e \in Engines : Work(e)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A e \in Engines : WF_vars(Work(e)) /\ \A s \in Sessions : WF_vars(CGet(s))

-----------------------------------------------------------------------------
RECURSIVE Of(_, _)
Of(q, s) == IF q = <<>> THEN <<>> ELSE (IF Head(q)[1] = s THEN <<Head(q)[2]>> ELSE <<>>) \o Of(Tail(q), s)
Pending(s) == LET e == p.ses[s]
                  g == p.eng[e]
              IN Of(g.out, s) \o (IF g.ph # "idle" /\ g.cur[1] = s THEN <<g.cur[2]>> ELSE <<>>) \o Of(g.inq, s)
Shown(h) == IF h % 10 = 9 THEN 0 - 1 ELSE h
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* what a session gets are the answers to its own hashes, in order, none left out
InOrder == \A s \in Sessions : Prefix(got[s], [k \in 1..Len(acc[s]) |-> Shown(acc[s][k])])
\* nothing is lost, unless the session ended or its engine stopped, of which it is told
NothingLost == \A s \in Sessions : (p.ses[s] # NoSession /\ ~gone[s] /\ p.eng[p.ses[s]].run) =>
                  acc[s] = SubSeq(acc[s], 1, Len(got[s])) \o Pending(s)
Bounded == \A e \in Engines : Len(p.eng[e].inq) <= MaxBuf /\ Len(p.eng[e].out) <= MaxBuf
\* only those who are there are served
NoStrangers == \A e \in Engines : \A k \in 1..Len(p.eng[e].out) : p.ses[p.eng[e].out[k][1]] = e

\* if all collect, each gets everything, or is told that it will not
Served == \A s \in Sessions : [](p.ses[s] # NoSession => <>(Len(got[s]) = Len(acc[s]) \/ gone[s]))

Emit == (Depth > 0 /\ Len(hist) = Depth) => PrintT("BEH " \o ToString(hist))
=============================================================================
