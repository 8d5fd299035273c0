------------------------------- MODULE SPTrace -------------------------------
(* Conformance of the signing plugins: a recording of calls, returns and signing steps is explained by the *)
(* specification if each call can be given a point between its start and its return at which it takes      *)
(* effect, and each internal step of a worker a point between the events it lies between.                  *)
EXTENDS SigningPlugin, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
Fails(h) == h % 10 = 9
VARIABLES i, p, pend
vars == <<i, p, pend>>

Callers == 0..9
NoCall == [f |-> "-"]
E == Events[i]
Adv == i' = i + 1 /\ TLCSet(1, IF i > TLCGet(1) THEN i ELSE TLCGet(1))

TInit == /\ TLCSet(1, 0) /\ i = 1 /\ p = Init0(TRUE) /\ pend = [t \in Callers |-> NoCall]

Scn == /\ E.op = "scn" /\ p' = Init0(IOEnv.PLUGIN = "t") /\ pend' = [t \in Callers |-> NoCall]
Call == /\ E.op = "call" /\ pend[E.t] = NoCall
        /\ pend' = [pend EXCEPT ![E.t] = [f |-> E.f, e |-> E, done |-> FALSE, noth |-> FALSE, r |-> [rc |-> 0]]]
        /\ p' = p
NoThread == /\ E.op = "thread" /\ pend[E.t] # NoCall
            /\ pend' = [pend EXCEPT ![E.t].noth = TRUE] /\ p' = p
Do(c) == CASE c.f = "init" -> DoInit(p, c.e.k, c.noth)
           [] c.f = "exit" -> DoExit(p, c.e.a)
           [] c.f = "setup" -> DoSetup(p, c.e.s, c.e.k, c.noth)
           [] c.f = "drop" -> DoDrop(p, c.e.s)
           [] c.f = "sign" -> DoSign(p, c.e.s, c.e.h, c.e.n, Fails(c.e.h))
           [] OTHER -> DoGet(p, c.e.s, c.e.max > 0 /\ c.e.max < 60)
\* the call takes effect
Lin(t) == /\ pend[t] # NoCall /\ ~pend[t].done
          /\ LET x == Do(pend[t]) IN /\ p' = x.p
                                     /\ pend' = [pend EXCEPT ![t].done = TRUE, ![t].r = x.r]
          /\ UNCHANGED i
\* ending an engine waits for its worker
Blocked(c) == \/ c.f = "exit" /\ ~p.cen /\ Busy(p, 0)
              \/ c.f = "drop" /\ p.ses[c.e.s] = NoSession /\ Busy(p, c.e.s)
Ret == /\ E.op = "ret" /\ pend[E.t] # NoCall /\ pend[E.t].done
       /\ LET c == pend[E.t] IN
            /\ ~Blocked(c)
            /\ E.rc = c.r.rc
            /\ c.f = "get" => /\ E.h = c.r.h /\ E.wr = c.r.wr /\ E.key = c.r.key /\ E.over = 0
                              /\ c.e.noerr = 0 => E.err = c.r.err
       /\ pend' = [pend EXCEPT ![E.t] = NoCall] /\ p' = p
EvBegin == /\ E.op = "begin" /\ \E e \in Engines : CanBegin(p, e) /\ p.eng[e].cur[2] = E.h /\ p' = Begin(p, e)
           /\ UNCHANGED pend
EvEnd == /\ E.op = "end" /\ \E e \in Engines : CanEnd(p, e) /\ p.eng[e].cur[2] = E.h /\ (E.ok = 1) = ~Fails(E.h) /\ p' = End(p, e, E.ok = 1)
         /\ UNCHANGED pend
EvQuiet == E.op = "quiet" /\ Quiet(p) /\ UNCHANGED <<p, pend>>
EvDone == E.op = "done" /\ UNCHANGED <<p, pend>>

Event == /\ i <= Len(Events)
         /\ (Scn \/ Call \/ NoThread \/ Ret \/ EvBegin \/ EvEnd \/ EvQuiet \/ EvDone)
         /\ Adv
Internal == /\ i <= Len(Events) /\ E.op # "scn"
            /\ \/ \E t \in Callers : Lin(t)
               \/ \E e \in Engines : /\ \/ CanTake(p, e) /\ p' = Take(p, e)
                                        \/ CanPut(p, e) /\ p' = Put(p, e)
                                     /\ UNCHANGED <<i, pend>>
TNext == Event \/ Internal
TSpec == TInit /\ [][TNext]_vars
Done == PrintT(<<"REACHED", TLCGet(1), Len(Events)>>)
=============================================================================
