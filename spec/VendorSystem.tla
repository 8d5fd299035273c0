----------------------------- MODULE VendorSystem -----------------------------
(* A camera that attests its public key, and somebody who may replace what the SEIs say about the     *)
(* origin: the key, the manufacturer, the serial number, the attestation and the certificates, each   *)
(* SEI signed with whatever key fits.  |Num| SEIs in a row, all combinations of |Keys| ... |Vendors|.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxBuffer, HashListBytes,
  Num, Keys, Makers, Serials, Vendors, Pks, Resets

S == INSTANCE Signer
V == INSTANCE Validator
N == INSTANCE Vendor

VARIABLES cfg, sent, pos, v, rep, hist, was, firm, saw
vars == <<cfg, sent, pos, v, rep, hist, was, firm, saw>>

Honest == [key |-> "A", maker |-> "A", ser |-> "SER1", ven |-> <<"a1A1", "T1">>, sign |-> "A"]
Lie == { x \in [key : Keys, maker : Makers, ser : Serials, ven : Vendors, sign : {"A", "B"}] :
           x.key # "-" => x.sign = x.key }

Shape == [i \in 1 .. 2 * Num + 1 |-> IF i % 2 = 1 THEN "I" ELSE "P"]
RECURSIVE Lay(_, _)
Lay(s, k) ==
  IF k > Len(Shape) THEN <<>>
  ELSE LET a == S!SAdd(s, Shape[k], Shape[k] \o ToString(k), FALSE, "0", FALSE)
           g == S!SGet(a.s, "", FALSE)
           n == <<[t |-> Shape[k], h |-> Shape[k] \o ToString(k), sei |-> V!NoSei]>>
       IN (IF g.sz = 1 THEN <<[t |-> "S", h |-> "S", sei |-> g.sei]>> ELSE <<>>) \o n \o Lay(g.s, k + 1)
Prod(x) == <<"HW", "fw", x.ser, IF x.maker = "A" THEN N!AXIS ELSE "Other", "addr">>
Camera ==
  LET a == S!SetKey(S!SInit, "A").s
      b == S!SetProd(a, Prod(Honest)).s
  IN S!SetAttest(b, "a1A1", "T1", 90, 1000).s

Tags(x) == (IF x.key = "-" THEN <<>> ELSE <<2>>) \o <<3, 7, 1, 4>> \o (IF x.ven = <<>> THEN <<>> ELSE <<129>>) \o <<5>>
\* the SEI |w| of the camera, with what |x| says
Told(w, x) ==
  [ok |-> 1, gold |-> 0, tags |-> Tags(x), gop |-> w.gop, num |-> w.num, ver |-> "v", vnew |-> 0, hts |-> w.hts, ts |-> w.ts,
   link |-> w.link, goph |-> w.goph, list |-> w.list, pk |-> IF x.key = "-" THEN "" ELSE x.key, prod |-> Prod(x),
   maxsig |-> w.maxsig, vrc |-> 0, att |-> IF x.ven = <<>> THEN "" ELSE x.ven[1], chain |-> IF x.ven = <<>> THEN "" ELSE x.ven[2],
   sigA |-> IF x.sign = "A" THEN 1 ELSE 0, sigB |-> IF x.sign = "B" THEN 1 ELSE 0, sigR |-> 0]

Init ==
  /\ cfg \in Pks /\ sent = Lay(Camera, 1) /\ pos = 1 /\ rep = V!NoReport /\ hist = <<>> /\ was = {} /\ firm = FALSE /\ saw = {}
  /\ v = IF cfg = "" THEN V!VInit ELSE V!VSetPk(V!VInit, cfg).v

Feed(n) ==
  LET r == V!VFeed(v, n)
  IN /\ v' = r.v
     /\ rep' = r.rep
     /\ was' = IF "none" \in DOMAIN r.rep THEN was ELSE was \cup {r.rep.apkv}
     /\ firm' = (firm \/ r.v.ven.val = 0)
Picture == pos <= Len(sent) /\ sent[pos].t # "S" /\ Feed(sent[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<cfg, sent, hist, saw>>
Sei(x) ==
  /\ pos <= Len(sent) /\ sent[pos].t = "S"
  /\ Feed([sent[pos] EXCEPT !.sei = Told(sent[pos].sei, x)])
  /\ hist' = Append(hist, x) /\ saw' = saw \cup {x} /\ pos' = pos + 1 /\ UNCHANGED <<cfg, sent>>
Reset ==
  /\ Resets /\ hist # <<>> /\ hist[Len(hist)] # [reset |-> TRUE] /\ pos <= Len(sent) /\ sent[pos].t = "P"
  /\ v' = V!VReset(v) /\ rep' = V!NoReport /\ was' = {} /\ hist' = Append(hist, [reset |-> TRUE])
  /\ UNCHANGED <<cfg, sent, pos, firm, saw>>
Next == Picture \/ (\E x \in Lie \cup {Honest} : Sei(x)) \/ Reset
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Told1 == "none" \notin DOMAIN rep
\* OK: somebody trusted attested exactly the key in use for the device with that serial number
OkIsTrue ==
  Told1 /\ (rep.pkv = V!PKV_OK \/ rep.apkv = V!PKV_OK) =>
    /\ rep.prod[4] = N!AXIS
    /\ \E x \in saw, y \in saw : x.ven # <<>> /\ y.key = v.pk /\ N!Attests(x.ven[1], x.ven[2], v.pk)
                                /\ rep.prod[3] = N!Chain(x.ven[2]).ser
\* The camera's own stream is told to be from the camera.
HonestIsOk == Told1 /\ saw = {Honest} /\ cfg = "" => rep.pkv = V!PKV_OK
\* Nothing is claimed without evidence.
NoEvidence ==
  Told1 /\ ((\A x \in saw : x.ven = <<>>) \/ (\A x \in saw : x.maker # "A")) /\ (\A x \in saw, y \in saw : x.key = y.key) => rep.pkv = V!PKV_NF
\* A bad verdict is final, until the stream is restarted for the accumulated one.
NeverRecovers == Told1 /\ V!PKV_NOT_OK \in was => rep.apkv = V!PKV_NOT_OK
StaysInvalid == firm => v.ven.val = 0
\* Another key than the one attested is never taken for it.
OtherKeyIsNotOk ==
  Told1 /\ rep.pkv = V!PKV_OK => v.ven.pub = v.pk /\ N!Report(v.ven.att).pk = v.pk

VenStr(x) == IF x = <<>> THEN "-" ELSE x[1] \o ":" \o x[2]
Line(x) == IF x = [reset |-> TRUE] THEN "reset" ELSE x.key \o " " \o x.maker \o " " \o x.ser \o " " \o VenStr(x.ven) \o " " \o x.sign
Emit == pos > Len(sent) => PrintT("BEH VEN " \o ToString(<<cfg>> \o [i \in DOMAIN hist |-> Line(hist[i])]))
==============================================================================
