----------------------------- MODULE TraceCodec -----------------------------
(***************************************************************************)
(* Judges what the real pack() and unpackPacket() did.  A case:            *)
(*  name, ver (5, 4, 0 for SN), b (bytes), more (payload bytes left out)   *)
(*  do "pack":    the code packed pkt into b                               *)
(*  do "unpack":  the code unpacked b: ok and pkt, or not ok               *)
(***************************************************************************)
EXTENDS Codec, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES c, done
D(x) == IF x.ver = 0 THEN DecSN(x.b) ELSE Dec(x.ver, x.b, x.more)
Judge(x) ==
  LET d == D(x) IN
  IF x.do = "pack" THEN d.ok /\ d.pkt = x.pkt
  ELSE IF d.ok THEN (x.ok /\ d.pkt = x.pkt) \/ (~x.ok /\ d.odd)
  ELSE ~x.ok
\* checked in blocks, to have few states
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ c' = c
        /\ IF Judge(Cases[c]) THEN PrintT(<<"ACCEPT", Cases[c].name>>)
           ELSE PrintT(<<"STUCK", Cases[c].name, 1, D(Cases[c])>>)
Spec == Init /\ [][Next]_<<c, done>>
=============================================================================
