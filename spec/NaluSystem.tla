------------------------------ MODULE NaluSystem ------------------------------
(* A signed stream with one NAL Unit of any kind at any place, which somebody changes, removes or       *)
(* repeats on the way to the validating side.  Every header of both codecs is a case of its own:        *)
(* pictures are protected, everything else makes no difference.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxBuffer, HashListBytes,
  Codecs,      \* subset of {0, 1}: H.264, H.265
  Second,      \* second bytes of an H.265 header to go through
  Firsts,      \* first bytes after the header
  Wheres, Mans, Levels

S == INSTANCE Signer
V == INSTANCE Validator
H == INSTANCE Nalu

VARIABLE c
Byte == 0 .. 255
\* what the NAL Unit starts with, the first byte being |x|; |more| FALSE: there is nothing else
Heads(cx, x) ==
  IF cx = 0 THEN { [b |-> <<x, f>>, more |-> TRUE] : f \in Firsts } \cup { [b |-> <<x>>, more |-> FALSE] }
  ELSE { [b |-> <<x, y, f>>, more |-> TRUE] : y \in Second, f \in Firsts }
       \cup { [b |-> <<x, y>>, more |-> FALSE] : y \in Second } \cup { [b |-> <<x>>, more |-> FALSE] }
Class(x) == H!Class(x.cx, x.hd.b)

\* The first part of a stream is not judged, hence the NAL Unit comes later (|Wheres| from 3 on).
Frame == <<"I", "P", "I", "P", "I", "P", "I">>
Pic(k) == [t |-> Frame[k], h |-> Frame[k] \o ToString(k), sei |-> V!NoSei]
Odd(x) == [t |-> Class(x), h |-> "H", sei |-> V!NoSei]
Shape(x) == [k \in 1 .. Len(Frame) + 1 |-> IF k <= x.where THEN Pic(k) ELSE IF k = x.where + 1 THEN Odd(x) ELSE Pic(k - 1)]

Told0(w) ==
  [ok |-> 1, gold |-> 0, tags |-> w.tags, gop |-> w.gop, num |-> w.num, ver |-> "v", vnew |-> 0, hts |-> w.hts, ts |-> w.ts,
   link |-> w.link, goph |-> w.goph, list |-> w.list, pk |-> w.pk, prod |-> w.prod, maxsig |-> w.maxsig, vrc |-> 0,
   att |-> w.att, chain |-> w.chain, sigA |-> 1, sigB |-> 0, sigR |-> 0]
RECURSIVE Lay(_, _, _)
Lay(s, q, k) ==
  IF k > Len(q) THEN <<>>
  ELSE LET a == S!SAdd(s, q[k].t, q[k].h, FALSE, "0", FALSE)
           g == S!SGet(a.s, "", FALSE)
       IN (IF g.sz = 1 THEN <<[t |-> "S", h |-> "S", sei |-> Told0(g.sei)]>> ELSE <<>>)
          \o <<q[k]>> \o Lay(g.s, q, k + 1)
RECURSIVE Manip(_, _)
Manip(q, m) ==
  IF q = <<>> THEN <<>>
  ELSE LET n == Head(q) IN
       (IF n.h # "H" THEN <<n>>
        ELSE CASE m = "none" -> <<n>> [] m = "change" -> <<[n EXCEPT !.h = "H2"]>> [] m = "drop" -> <<>> [] m = "twice" -> <<n, n>>)
       \o Manip(Tail(q), m)

RECURSIVE Watch(_, _, _)
\* the reports of the validating side
Watch(v, q, k) ==
  IF k > Len(q) THEN <<>>
  ELSE LET r == V!VFeed(v, q[k]) IN (IF "none" \in DOMAIN r.rep THEN <<>> ELSE <<r.rep>>) \o Watch(r.v, q, k + 1)
Signer0(x) == S!SetLevel(S!SetKey(S!SInit, "A").s, x.level).s
Reports(x) == Watch(V!VInit, Manip(Lay(Signer0(x), Shape(x), 1), x.man), 1)

Init == \E cx \in Codecs, x \in Byte : c = [cx |-> cx, x |-> x]
Next ==
  /\ "x" \in DOMAIN c
  /\ \E hd \in Heads(c.cx, c.x), m \in Mans, w \in Wheres, l \in Levels :
       c' = [cx |-> c.cx, hd |-> hd, man |-> m, where |-> w, level |-> l]
Is == "hd" \in DOMAIN c
Spec == Init /\ [][Next]_c
-----------------------------------------------------------------------------
Doubted(r) == r.auth \notin {V!SIG_PRESENT, V!AUTH_OK} \/ r.aauth \notin {V!SIG_PRESENT, V!AUTH_OK}
Told(rs) == \E k \in DOMAIN rs : rs[k].aauth = V!AUTH_OK
Protected == Is => (H!IsPicture(Class(c)) /\ c.man # "none" => \E k \in DOMAIN Reports(c) : Doubted(Reports(c)[k]))
Harmless == Is =>
 ((c.man = "none" \/ ~H!IsPicture(Class(c))) =>
    LET rs == Reports(c) IN Told(rs) /\ \A k \in DOMAIN rs : ~Doubted(rs[k]))
\* one answer for every header, and a NAL Unit that is no part of the video is never shown as valid
Answered == Is => Class(c) \in H!Kinds \cup {"A", "a", "X", "x", "V", "-", "O", "Y"}
Emit == Is => PrintT("BEH NAL " \o ToString(<<c.cx, c.man, c.where, c.level, Class(c), c.hd.more>> \o c.hd.b))
==============================================================================
