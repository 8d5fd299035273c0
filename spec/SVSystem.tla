------------------------------ MODULE SVSystem ------------------------------
(* Signer -> adversarial channel -> validator.  The signed stream is laid out in the initial state for *)
(* every configuration in the constants; the channel then delivers it NAL Unit by NAL Unit and may     *)
(* manipulate it |Budget| times in any way an adversary without the private key can.  The invariants   *)
(* are the guarantees of the framework, stated on the authenticity reports only.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS MaxBuffer, HashListBytes,
  Shapes,     \* sequences of NAL Unit types
  Levels, Recurs, Delays, Eoss, Pks, Golds,
  Formats,    \* "new", "leg": the format used before version 2
  Budget, Attacks

S == INSTANCE Signer
V == INSTANCE Legacy

VARIABLES cfg, signed, sent, other, pos, budget, v, done, rep, fed, atk

vars == <<cfg, signed, sent, other, pos, budget, v, done, rep, fed, atk>>

-----------------------------------------------------------------------------
(* The signed stream *)
FullSei(w) ==
  [ok |-> 1, gold |-> w.gold, tags |-> w.tags, gop |-> w.gop, num |-> w.num, ver |-> "v", vnew |-> 0, hts |-> w.hts,
   ts |-> w.ts, link |-> w.link, goph |-> w.goph, list |-> w.list, pk |-> w.pk, prod |-> w.prod, maxsig |-> w.maxsig,
   sigA |-> IF w.signer = "A" THEN 1 ELSE 0, sigB |-> IF w.signer = "B" THEN 1 ELSE 0, sigR |-> 0]
\* |op|: the line of a driver script that feeds this NAL Unit to the implementation
SeiNalu(w, c) ==
  [t |-> "S", h |-> "S", sei |-> FullSei(w),
   op |-> "feeds 1 " \o ToString(c.obj) \o " " \o
          ToString(IF w.gold = 1 THEN 0 ELSE w.gop - 1 + (IF c.gold THEN 1 ELSE 0))]
Pic(t, h, k) == [t |-> t, h |-> h, sei |-> V!NoSei, op |-> "feed 1 " \o t \o " " \o ToString(k)]

RECURSIVE Lay(_, _, _, _, _)
\* |q|: SEIs fetched but not yet sent, with the number of NAL Units to go before they are
Lay(s, types, k, q, c) ==
  LET due == SelectSeq(q, LAMBDA x : x[1] <= 0)
      rest == [i \in DOMAIN SelectSeq(q, LAMBDA x : x[1] > 0) |->
                 <<SelectSeq(q, LAMBDA x : x[1] > 0)[i][1] - 1, SelectSeq(q, LAMBDA x : x[1] > 0)[i][2]>>]
      now == [i \in DOMAIN due |-> SeiNalu(due[i][2], c)]
  IN IF k > Len(types)
     THEN LET e == IF c.eos THEN LET x == S!SGet(S!SEos(s, S!Collect).s, "", FALSE) IN <<x.sei>> ELSE <<>>
          IN [i \in DOMAIN q |-> SeiNalu(q[i][2], c)] \o [i \in DOMAIN e |-> SeiNalu(e[i], c)]
     ELSE LET a == S!SAdd(s, types[k], c.pre \o types[k] \o ToString(k), FALSE, "0", FALSE)
              g == S!SGet(a.s, "", FALSE)
              new == IF g.sz = 1 THEN <<<<c.delay, g.sei>>>> ELSE <<>>
              me == <<Pic(types[k], c.pre \o types[k] \o ToString(k), 100 * c.obj + k)>>
              before == IF c.delay < 0 THEN [i \in DOMAIN new |-> SeiNalu(new[i][2], c)] ELSE <<>>
              later == IF c.delay < 0 THEN <<>> ELSE new
          IN now \o before \o me \o Lay(g.s, types, k + 1, rest \o later, c)

Signer0(c) ==
  LET a == S!SetKey(S!SInit, c.key).s
      b == S!SetLevel(a, c.level).s
  IN S!SetRecur(b, c.recur).s
\* In the legacy format every I-frame comes with a SEI for the pictures since, and including, the I-frame before it.
LegSei(n, hs, c) ==
  LET pk == c.recur = 1 \/ n % c.recur = 1
  IN [t |-> "S", h |-> "S", op |-> "feeds 1 " \o ToString(c.obj) \o " " \o ToString(n - 1),
      sei |-> [ok |-> 1, gold |-> 0, leg |-> 1, ht |-> c.level, genver |-> 2, gop |-> n, num |-> Len(hs), ver |-> "v", vnew |-> 0,
               hts |-> 0, ts |-> "0", link |-> "0", goph |-> hs, list |-> IF c.level = 1 THEN hs ELSE <<>>,
               tags |-> <<1>> \o (IF pk THEN <<2>> ELSE <<>>) \o (IF c.level = 1 THEN <<4>> ELSE <<>>) \o <<5>>,
               pk |-> IF pk THEN c.key ELSE "", maxsig |-> 1, sigA |-> IF c.key = "A" THEN 1 ELSE 0,
               sigB |-> IF c.key = "B" THEN 1 ELSE 0, sigR |-> 0]]
RECURSIVE LegLay(_, _, _, _, _)
\* |hs|: the hashes since the I-frame |ref|; |q|: SEIs to be sent later
LegLay(k, ref, hs, q, c) ==
  LET due == SelectSeq(q, LAMBDA x : x[1] <= 0)
      more == SelectSeq(q, LAMBDA x : x[1] > 0)
      rest == [i \in DOMAIN more |-> <<more[i][1] - 1, more[i][2], more[i][3]>>]
      now == [i \in DOMAIN due |-> due[i][2]]
  IN IF k > Len(c.shape) THEN [i \in DOMAIN q |-> q[i][2]]
     ELSE LET h == c.pre \o c.shape[k] \o ToString(k)
              first == c.shape[k] = "I"
              all == Append(hs, IF ref = "" THEN h ELSE ref \o "/" \o h)
              me == <<Pic(c.shape[k], h, 100 * c.obj + k)>>
              no == Cardinality({ j \in 1 .. k : c.shape[j] = "I" })
              sei == LegSei(no, all, c)
          IN IF ~first THEN now \o me \o LegLay(k + 1, ref, IF ref = "" THEN hs ELSE all, rest, c)
             ELSE now \o (IF c.delay < 0 THEN <<sei>> ELSE <<>>) \o me \o
                  LegLay(k + 1, h, <<h>>, IF c.delay < 0 THEN rest ELSE Append(rest, <<c.delay, sei, 0>>), c)

Stream(c) ==
  IF c.fmt = "leg" THEN LegLay(1, "", <<>>, <<>>, c) ELSE
  LET g == IF c.gold THEN S!SGet(S!SGold(S!SetGolden(Signer0(c), TRUE).s).s, "", FALSE) ELSE [s |-> Signer0(c), sei |-> S!NoSeiGot]
      first == IF c.gold THEN <<SeiNalu(g.sei, c)>> ELSE <<>>
  IN first \o Lay(IF c.gold THEN S!SetLevel(g.s, c.level).s ELSE g.s, c.shape, 1, <<>>, c)

IsPicN(n) == n.t \in {"I", "P", "i", "p"}
NamesOf(q) == [i \in DOMAIN q |-> q[i].h]

Configs ==
  [shape : Shapes, level : Levels, recur : Recurs, delay : Delays, eos : Eoss, userpk : Pks, gold : Golds,
   fmt : Formats, key : {"A"}, pre : {""}, obj : {0}]

Init ==
  /\ \E c \in Configs : cfg = c /\ sent = Stream(c) /\ signed = NamesOf(SelectSeq(sent, IsPicN))
  /\ other = IF "splice" \in Attacks THEN Stream([cfg EXCEPT !.key = "B", !.pre = "b", !.obj = 2]) ELSE <<>>
  /\ pos = 1 /\ budget = Budget
  /\ v = IF cfg.userpk THEN V!VSetPk(V!VInit, "A").v ELSE V!VInit
  /\ done = <<>> /\ rep = V!NoReport /\ fed = <<>> /\ atk = <<>>

-----------------------------------------------------------------------------
(* The channel *)
\* What the report told about: the items that left the list
Feed(n) ==
  LET r == V!XFeed(v, n)
  IN /\ v' = r.v
     /\ fed' = Append(fed, n.op)
     /\ rep' = IF "none" \in DOMAIN r.rep THEN rep ELSE r.rep
     \* As long as only the presence of a signature is reported nothing has been claimed.
     /\ done' = IF r.v.aauth <= V!SIG_PRESENT THEN <<>> ELSE done \o [i \in 1 .. Len(r.gone) |-> [h |-> r.gone[i].h, t |-> r.gone[i].t, st |-> r.gone[i].st]]

Quiet == UNCHANGED <<v, rep, fed, done>>
Attack(name, cost) == name \in Attacks /\ budget >= cost /\ budget' = budget - cost /\ atk' = Append(atk, <<name, pos>>)

Deliver == pos <= Len(sent) /\ Feed(sent[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<cfg, signed, sent, other, budget, atk>>
Drop == pos <= Len(sent) /\ Attack("drop", 1) /\ pos' = pos + 1 /\ Quiet /\ UNCHANGED <<cfg, signed, sent, other>>
\* the bytes of a picture are changed
Modify ==
  /\ pos <= Len(sent) /\ sent[pos].t # "S" /\ Attack("modify", 1)
  /\ Feed([sent[pos] EXCEPT !.h = "x" \o ToString(pos),
                          !.op = "feed 1 " \o sent[pos].t \o " " \o ToString(500 + pos)]) /\ pos' = pos + 1 /\ UNCHANGED <<cfg, signed, sent, other>>
Insert(t) ==
  /\ pos <= Len(sent) /\ Attack("insert", 1)
  /\ Feed(Pic(t, "f" \o ToString(pos) \o ToString(budget), 600 + 10 * pos + budget)) /\ UNCHANGED <<cfg, signed, sent, other, pos>>
Replay(j) ==
  /\ pos <= Len(sent) /\ j < pos /\ Attack("replay", 1) /\ Feed(sent[j]) /\ UNCHANGED <<cfg, signed, sent, other, pos>>
Swap(j) ==
  /\ pos < j /\ j <= Len(sent) /\ Attack("swap", 1)
  /\ sent' = [sent EXCEPT ![pos] = sent[j], ![j] = sent[pos]] /\ UNCHANGED <<cfg, signed, other, pos>> /\ Quiet
\* the signature, or any signed part, of a SEI is changed; |x|: the signature is malformed
Corrupt(x) ==
  /\ pos <= Len(sent) /\ sent[pos].t = "S" /\ Attack("corrupt", 1)
  /\ Feed([sent[pos] EXCEPT !.sei.sigA = x, !.op = @ \o (IF x = 0 THEN " mut=sig" ELSE " mut=sigder")]) /\ pos' = pos + 1 /\ UNCHANGED <<cfg, signed, sent, other>>
\* a SEI describing exactly what was received, but signed with another key
Forge ==
  /\ v.hasPk /\ v.pk = "A" /\ pos <= Len(sent) /\ sent[pos].t = "S" /\ Attack("forge", 1)
  /\ Feed([sent[pos] EXCEPT !.op = @ \o " mut=pkB,resignB", !.sei.sigA = 0, !.sei.sigB = 1, !.sei.pk = "B",
             !.sei.tags = IF sent[pos].sei.pk = "" THEN <<2>> \o sent[pos].sei.tags ELSE sent[pos].sei.tags])
  /\ pos' = pos + 1 /\ UNCHANGED <<cfg, signed, sent, other>>
\* start, or continue, anywhere
Skip(j) ==
  /\ pos <= j /\ j <= Len(sent) /\ Attack("skip", 1) /\ pos' = j + 1 /\ Quiet /\ UNCHANGED <<cfg, signed, sent, other>>
\* jump back: a part of the stream is sent again
Rewind(j) ==
  /\ j < pos /\ Attack("rewind", 1) /\ sent' = SubSeq(sent, 1, pos - 1) \o SubSeq(sent, j, Len(sent))
  /\ UNCHANGED <<cfg, signed, other, pos>> /\ Quiet
\* continue with the stream of another signer; without a key in advance the first one is trusted
Splice(j) ==
  /\ v.hasPk /\ v.pk = "A" /\ j <= Len(other) /\ Attack("splice", 1) /\ sent' = SubSeq(sent, 1, pos - 1) \o SubSeq(other, j, Len(other))
  /\ UNCHANGED <<cfg, signed, other, pos>> /\ Quiet

Next ==
  \/ Deliver \/ Drop \/ Modify \/ Forge
  \/ \E t \in {"I", "P"} : Insert(t)
  \/ \E x \in {0, -1} : Corrupt(x)
  \/ \E j \in 1 .. Len(sent) : Replay(j) \/ Swap(j) \/ Skip(j) \/ Rewind(j)
  \/ \E j \in 1 .. Len(other) : Splice(j)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Guarantees *)
Told == SelectSeq(done, IsPicN)                         \* the pictures a verdict was given on
ToldNames == NamesOf(Told)
Good == { Told[i].h : i \in { k \in DOMAIN Told : Told[k].st = "." } }
Contiguous(a, b) == \E k \in 0 .. Len(b) - Len(a) : \A i \in DOMAIN a : a[i] = b[k + i]
\* counterexamples, readable
Short ==
  [cfg |-> cfg, atk |-> atk, pos |-> pos, ns |-> v.ns, vs |-> v.vs, auth |-> v.auth, aauth |-> v.aauth,
   items |-> V!NaluStr(v.items) \o ":" \o V!ValStr(v.items), told |-> ToldNames,
   sent |-> NamesOf(sent)]

Pristine == atk = <<>>

\* Nothing that was not signed is ever marked as authentic.
OnlySignedIsValid == ~v.apkc => Good \subseteq { signed[i] : i \in DOMAIN signed }
\* An accumulated verdict OK: what was told about is one unbroken part of the signed stream.
OkMeansSegment == v.aauth = V!AUTH_OK => Contiguous(ToldNames, signed)
\* Missing information: whatever a verdict was given on is part of the signed stream. (A part sent twice is
\* not ruled out: its SEI is accepted again and what does not fit is reported as missing.)
MissingMeansSigned == v.aauth = V!OK_MISSING => \A i \in DOMAIN Told : \E k \in DOMAIN signed : signed[k] = Told[i].h
\* An untouched stream is never questioned.
AuthenticIsOk ==
  Pristine => /\ v.auth \in {V!NOT_SIGNED, V!SIG_PRESENT, V!AUTH_OK} /\ v.aauth \in {V!NOT_SIGNED, V!SIG_PRESENT, V!AUTH_OK}
              /\ \A i \in DOMAIN done : done[i].st \in {".", "_"}
              /\ ~v.pkc
\* After the first SEI of a GOP the verdict is there, and it is OK.
AuthenticIsTold ==
  (Pristine /\ \E k \in 1 .. pos - 1 : sent[k].t = "S" /\ sent[k].sei.gold = 0) => v.aauth = V!AUTH_OK /\ v.auth = V!AUTH_OK
\* Validation may start at any I-frame (or at a SEI in front of one), and end anywhere: a part of the stream is
\* never questioned, and is OK as soon as a SEI describing it has been received.
Part == SubSeq(sent, pos - Len(fed), pos - 1)
AtIFrame == Part # <<>> /\ (Part[1].t = "I" \/ (cfg.delay < 0 /\ Part[1].t = "S"))
OnlySegment == atk = <<>> \/ (Len(atk) = 1 /\ atk[1] = <<"skip", 1>> /\ AtIFrame)
SegmentIsNotQuestioned ==
  OnlySegment => /\ v.auth \in {V!NOT_SIGNED, V!SIG_PRESENT, V!AUTH_OK} /\ v.aauth \in {V!NOT_SIGNED, V!SIG_PRESENT, V!AUTH_OK}
                 /\ ~v.pkc
                 /\ \A i \in DOMAIN done : IsPicN(done[i]) => done[i].st = "."
SegmentIsTold ==
  (/\ OnlySegment /\ v.hasPk /\ v.algoKnown
   /\ \E k \in DOMAIN Part : Part[k].t = "S" /\ Part[k].sei.gold = 0 /\ \E j \in 1 .. k : Part[j].h = Part[k].sei.goph[1])
  => v.aauth = V!AUTH_OK
\* A verdict on all received so far never gets better and is never withdrawn.
VerdictStays == [][v.aauth > V!SIG_PRESENT => v'.aauth <= v.aauth /\ v'.aauth > V!SIG_PRESENT]_vars
\* Prints every complete behaviour, to be replayed on the implementation.
Emit ==
  pos > Len(sent) => PrintT("BEH " \o ToString(<<cfg.shape, cfg.level, cfg.recur, cfg.eos, cfg.userpk, cfg.gold, cfg.fmt, Len(atk), fed>>))
=============================================================================
