---------------------------- MODULE SigningPlugin ----------------------------
(* The signing plugins: hashes are handed in, signed (by a worker thread, or at once), and signatures collected.  *)
(* The threaded plugin has engines: number 0 is the central one, shared by all sessions set up while it is there; *)
(* number s is the private one of session s.  The worker of an engine takes the oldest hash (Take), signs it      *)
(* outside the lock (Begin, End), and delivers the result (Put).  Everything a caller does is atomic.             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxBuf,        \* length of the buffers in and out
          Sessions       \* session numbers (positive)

OK == 0
INVALID == -10
NOTSUP == -12
EXTERNAL == -20

Engines == {0} \cup Sessions
Keys == {"A", "B", "R"}

NoEngine == [run |-> FALSE, key |-> "-", hs |-> 0, inq |-> <<>>, ph |-> "idle", cur |-> <<0, 0>>, ok |-> TRUE, out |-> <<>>]
NewEngine(k) == [NoEngine EXCEPT !.run = TRUE, !.key = k]
NoSession == -1

(* eng: the engines; ses: which engine a session uses; act: sessions known to the central engine; cen: the central engine exists *)
Init0(threaded) == [thr |-> threaded, eng |-> [e \in Engines |-> NoEngine], ses |-> [s \in Sessions |-> NoSession], act |-> {}, cen |-> FALSE]

B2I(b) == IF b THEN 1 ELSE 0
Without(q, s) == SelectSeq(q, LAMBDA x : x[1] # s)

-----------------------------------------------------------------------------
(* Calls: each gives [p: next state, r: what is returned]; noth: no thread could be started *)
DoInit(p, k, noth) ==
  IF ~p.thr THEN [p |-> p, r |-> [rc |-> 0]]
  ELSE IF p.cen \/ k \notin Keys \/ noth THEN [p |-> p, r |-> [rc |-> -1]]
  ELSE [p |-> [p EXCEPT !.cen = TRUE, !.eng[0] = NewEngine(k), !.act = {}], r |-> [rc |-> 0]]

DoExit(p, a) ==
  IF a # 0 \/ ~p.thr \/ ~p.cen THEN [p |-> p, r |-> [rc |-> 0]]
  ELSE [p |-> [p EXCEPT !.cen = FALSE, !.act = {}, !.eng[0].run = FALSE, !.eng[0].inq = <<>>, !.eng[0].out = <<>>], r |-> [rc |-> 0]]

DoSetup(p, s, k, noth) ==
  IF p.thr /\ p.cen
  THEN [p |-> [p EXCEPT !.ses[s] = 0, !.act = @ \cup {s}], r |-> [rc |-> 1]]
  ELSE IF k \notin Keys \/ noth THEN [p |-> p, r |-> [rc |-> 0]]
  ELSE [p |-> [p EXCEPT !.ses[s] = s, !.eng[s] = NewEngine(k)], r |-> [rc |-> 1]]

DoDrop(p, s) ==
  LET e == p.ses[s] IN
  IF e = NoSession THEN [p |-> p, r |-> [rc |-> 0]]
  ELSE IF e = 0
  THEN [p |-> [p EXCEPT !.ses[s] = NoSession, !.act = @ \ {s}, !.eng[0].inq = Without(@, s), !.eng[0].out = Without(@, s)], r |-> [rc |-> 0]]
  ELSE [p |-> [p EXCEPT !.ses[s] = NoSession, !.eng[s].run = FALSE, !.eng[s].inq = <<>>, !.eng[s].out = <<>>], r |-> [rc |-> 0]]

(* n: size of the hash (0: none, negative: no hash at all); fails: signing this hash fails *)
DoSign(p, s, h, n, fails) ==
  LET e == p.ses[s]
      g == p.eng[e]
  IN IF n <= 0 \/ e = NoSession THEN [p |-> p, r |-> [rc |-> INVALID]]
     ELSE IF ~p.thr
     THEN IF Len(g.out) >= MaxBuf THEN [p |-> p, r |-> [rc |-> NOTSUP]]
          ELSE IF fails THEN [p |-> p, r |-> [rc |-> EXTERNAL]]
          ELSE [p |-> [p EXCEPT !.eng[e].out = Append(@, <<s, h, TRUE>>)], r |-> [rc |-> OK]]
     ELSE IF Len(g.inq) >= MaxBuf THEN [p |-> p, r |-> [rc |-> NOTSUP]]
     ELSE IF ~g.run THEN [p |-> p, r |-> [rc |-> EXTERNAL]]
     ELSE IF g.hs # 0 /\ g.hs # n THEN [p |-> p, r |-> [rc |-> NOTSUP]]
     ELSE [p |-> [p EXCEPT !.eng[e].inq = Append(@, <<s, h>>), !.eng[e].hs = n], r |-> [rc |-> OK]]

(* small: the caller has no room for a signature.  wr: 2 untouched, 0 nothing, 1 a signature written *)
DoGet(p, s, small) ==
  LET e == p.ses[s]
      g == p.eng[e]
      none(err) == [p |-> p, r |-> [rc |-> 0, err |-> err, h |-> 0, wr |-> 2, key |-> "-"]]
      it == Head(g.out)
      q == [p EXCEPT !.eng[e].out = Tail(@)]
  IN IF e = NoSession THEN none(-77)
     ELSE IF p.thr /\ ~g.run THEN none(EXTERNAL)
     ELSE IF g.out = <<>> THEN none(OK)
     ELSE IF it[1] # s THEN none(OK)
     ELSE IF ~it[3] THEN [p |-> q, r |-> [rc |-> 1, err |-> EXTERNAL, h |-> 0, wr |-> 0, key |-> "-"]]
     ELSE IF small THEN [p |-> q, r |-> [rc |-> B2I(p.thr), err |-> IF p.thr THEN INVALID ELSE OK, h |-> 0, wr |-> 0, key |-> "-"]]
     ELSE [p |-> q, r |-> [rc |-> 1, err |-> OK, h |-> it[2], wr |-> 1, key |-> g.key]]

-----------------------------------------------------------------------------
(* The worker of engine e *)
CanTake(p, e) == LET g == p.eng[e] IN
  p.thr /\ g.run /\ g.ph = "idle" /\ g.inq # <<>> /\ (e = 0 => Len(g.out) < MaxBuf)
Take(p, e) == [p EXCEPT !.eng[e].cur = Head(p.eng[e].inq), !.eng[e].inq = Tail(@), !.eng[e].ph = "taken"]

CanBegin(p, e) == p.eng[e].ph = "taken"
Begin(p, e) == [p EXCEPT !.eng[e].ph = "signing"]
CanEnd(p, e) == p.eng[e].ph = "signing"
End(p, e, ok) == [p EXCEPT !.eng[e].ph = "signed", !.eng[e].ok = ok]

CanPut(p, e) == p.eng[e].ph = "signed"
Put(p, e) ==
  LET g == p.eng[e]
      idle == [g EXCEPT !.ph = "idle"]
      s == g.cur[1]
  IN IF ~g.run \/ (e = 0 /\ s \notin p.act) THEN [p EXCEPT !.eng[e] = idle]      \* nobody waits for it
     ELSE IF Len(g.out) >= MaxBuf                                                 \* a private engine that nobody collects from stops
     THEN [p EXCEPT !.eng[e] = [idle EXCEPT !.run = FALSE, !.inq = <<>>, !.out = <<>>]]
     ELSE [p EXCEPT !.eng[e] = [idle EXCEPT !.out = Append(@, <<s, g.cur[2], g.ok>>)]]

Busy(p, e) == p.eng[e].ph # "idle"
Quiet(p) == \A e \in Engines : ~Busy(p, e) /\ ~CanTake(p, e)
=============================================================================
