-------------------------------- MODULE Nalu ---------------------------------
(* What a NAL Unit is, from its first bytes (ITU-T H.264 7.4.1, H.265 7.4.2.2).  |b|: the first (at most  *)
(* three) bytes after the start code.  The answer is the type as the driver and the reports name it:       *)
(*   I P  first slice of an intra, other picture     v  parameter set    z  SEI      U  not defined        *)
(*   i p  further slices of a picture                _  AU delimiter     o  other                          *)
(* A NAL Unit whose header is not allowed is A a X x V - Y O instead: no part of the video for the library. *)
EXTENDS Integers, Sequences

Kinds == {"I", "i", "P", "p", "v", "_", "o", "z", "U"}
Faulty(t) == CASE t = "I" -> "A" [] t = "i" -> "a" [] t = "P" -> "X" [] t = "p" -> "x" [] t = "v" -> "V"
               [] t = "_" -> "-" [] t = "o" -> "O" [] t = "z" -> "Y" [] OTHER -> t
\* the other way: how a report names it
Shown(t) == CASE t = "A" -> "I" [] t = "a" -> "i" [] t = "X" -> "P" [] t = "x" -> "p" [] t = "V" -> "v"
              [] t = "-" -> "_" [] t = "O" -> "o" [] t \in {"Y", "z", "Z", "y"} -> "z" [] OTHER -> t
IsFaulty(t) == t \in {"A", "a", "X", "x", "V", "-", "O", "Y", "U"}
IsPicture(t) == t \in {"I", "i", "P", "p"}

Slice(main, first) == IF first THEN main ELSE IF main = "I" THEN "i" ELSE "p"

(* H.264: forbidden_zero_bit, nal_ref_idc (2), nal_unit_type (5) *)
Class264(b) ==
  LET f == b[1] \div 128
      ref == (b[1] \div 32) % 4
      ty == b[1] % 32
      first == Len(b) > 1 /\ b[2] >= 128
      r == CASE ty = 1 -> <<Slice("P", first), TRUE>>
             [] ty \in 2 .. 4 -> <<"o", TRUE>>
             [] ty = 5 -> <<Slice("I", first), ref > 0>>
             [] ty = 6 -> <<"z", ref = 0>>
             [] ty \in {7, 8, 13, 15} -> <<"v", ref > 0>>
             [] ty = 9 -> <<"_", TRUE>>
             [] ty \in 10 .. 12 -> <<"o", ref = 0>>
             [] OTHER -> <<"U", FALSE>>
  IN IF r[2] /\ f = 0 THEN r[1] ELSE Faulty(r[1])

(* H.265: forbidden_zero_bit, nal_unit_type (6), nuh_layer_id (6), nuh_temporal_id_plus1 (3) *)
Class265(b) ==
  IF Len(b) < 2 THEN "U"
  ELSE LET f == b[1] \div 128
           ty == (b[1] \div 2) % 64
           layer == (b[1] % 2) * 32 + b[2] \div 8
           tid == (b[2] % 8) - 1
           first == Len(b) > 2 /\ b[3] >= 128
           r == CASE ty \in 0 .. 1 -> <<Slice("P", first), TRUE>>
                  [] ty \in 2 .. 3 -> <<"o", tid > 0>>
                  [] ty \in 4 .. 5 -> <<"o", layer > 0 \/ tid > 0>>
                  [] ty \in 6 .. 9 -> <<"o", tid > 0>>
                  [] ty \in 16 .. 21 -> <<Slice("I", first), tid = 0>>
                  [] ty \in 32 .. 33 -> <<"v", tid = 0>>
                  [] ty = 34 -> <<"v", TRUE>>
                  [] ty = 35 -> <<"_", TRUE>>
                  [] ty \in 36 .. 37 -> <<"o", tid = 0 /\ layer = 0>>
                  [] ty = 38 -> <<"o", TRUE>>
                  [] ty \in 39 .. 40 -> <<"z", TRUE>>
                  [] OTHER -> <<"U", FALSE>>
       IN IF tid < 0 THEN "U" ELSE IF r[2] /\ f = 0 THEN r[1] ELSE Faulty(r[1])

Class(h265, b) == IF Len(b) = 0 THEN "U" ELSE IF h265 = 1 THEN Class265(b) ELSE Class264(b)
==============================================================================
