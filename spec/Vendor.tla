------------------------------- MODULE Vendor -------------------------------
(* The origin of the public key, as attested by the vendor.  The camera adds an attestation report and *)
(* the certificates of the key that signed it to the stream; the validating side decides whether the    *)
(* public key in the stream belongs to the camera with the serial number given.                         *)
(* Cryptography is symbolic: a chain either proves (attester key, chip, serial number) or nothing, an   *)
(* attestation report is a signature by an attester key on (public key, chip), or is malformed.         *)
(* The names are those of the certificates and reports in keys/att, see keys/att/make.sh.               *)
EXTENDS Integers, Sequences

AXIS == "Axis Communications AB"

NoCert == [ok |-> FALSE, key |-> 0, chip |-> 0, ser |-> "Unknown"]
Cert(k, c, s) == [ok |-> TRUE, key |-> k, chip |-> c, ser |-> s]
Chain(c) ==
  CASE c \in {"T1", "DIR", "CRLF"} -> Cert(1, 1, "SER1")
    [] c = "T2" -> Cert(2, 2, "SER2")
    [] c = "S2" -> Cert(1, 1, "SER2")
    [] OTHER -> NoCert

Rep(k, p, c) == [form |-> "ok", key |-> k, pk |-> p, chip |-> c]
BadRep(f) == [form |-> f, key |-> 0, pk |-> "", chip |-> 0]
Report(a) ==
  CASE a \in {"a1A1", "hdr"} -> Rep(1, "A", 1)
    [] a = "a1A2" -> Rep(1, "A", 2) [] a = "a1B1" -> Rep(1, "B", 1) [] a = "a1B2" -> Rep(1, "B", 2)
    [] a = "a2A1" -> Rep(2, "A", 1) [] a = "a2A2" -> Rep(2, "A", 2)
    [] a = "a2B1" -> Rep(2, "B", 1) [] a = "a2B2" -> Rep(2, "B", 2)
    [] a \in {"sig", "ts"} -> BadRep("wrong")   \* a signature, on something else
    [] a = "der" -> BadRep("der")               \* not a signature at all
    [] OTHER -> BadRep("malformed")

\* The report, verified with the chain, is about public key |pk|.
Attests(a, c, pk) ==
  /\ Chain(c).ok /\ Report(a).form = "ok"
  /\ Report(a).key = Chain(c).key /\ Report(a).chip = Chain(c).chip /\ Report(a).pk = pk

-----------------------------------------------------------------------------
(* The vendor's state on the validating side: what was received first, the key in the stream, the        *)
(* verdict so far (-1: nothing known, 0: not valid, for good, 1: valid), and the serial number proven.    *)
VendorInit == [att |-> "", chain |-> "", pub |-> "", val |-> -1, ser |-> "Unknown"]

\* The vendor data of a SEI. It cannot be changed once received.  |vrc|: -1 cut short, -2 unknown version
VendorData(w, vrc, a, c) ==
  IF vrc = -1 THEN [w |-> w, rc |-> -30]
  ELSE IF vrc = -2 THEN [w |-> w, rc |-> -15]
  ELSE IF a = "" THEN [w |-> w, rc |-> -12]
  ELSE IF w.att # "" /\ w.att # a THEN [w |-> w, rc |-> -12]
  ELSE IF w.chain # "" /\ w.chain # c THEN [w |-> [w EXCEPT !.att = a], rc |-> -12]
  ELSE [w |-> [w EXCEPT !.att = a, !.chain = c], rc |-> 0]

\* The public key of a SEI; |changed|: another one was used before.  Only NIST P-256 keys are attested.
VendorKey(w, k, changed) ==
  [w EXCEPT !.pub = k,
            !.val = IF w.val = 0 \/ (changed /\ w.pub # "") \/ k = "R" THEN 0 ELSE w.val]

And(x, y) == IF x = -1 THEN y ELSE IF x = 1 /\ y = 1 THEN 1 ELSE 0
VendorVerify(w) ==
  IF w.att = "" \/ w.chain = "" \/ w.pub = "" THEN [w |-> w, rc |-> 0]
  ELSE IF ~Chain(w.chain).ok \/ Report(w.att).form = "malformed" \/ w.pub = "R"
       THEN [w |-> [w EXCEPT !.val = 0, !.ser = "Unknown"], rc |-> 0]
  ELSE LET u == [w EXCEPT !.ser = Chain(w.chain).ser]
       IN IF Report(w.att).form = "der" THEN [w |-> u, rc |-> -20]
          ELSE [w |-> [u EXCEPT !.val = And(w.val, IF Attests(w.att, w.chain, w.pub) THEN 1 ELSE 0)], rc |-> 0]
==============================================================================
