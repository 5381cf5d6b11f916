------------------------------- MODULE MCCodec -------------------------------
(***************************************************************************)
(* Enumerates packets of a grid of field values: the decoding of every     *)
(* encoding is the packet, and what is cut short, prolonged or has other   *)
(* flags is not accepted as that packet.  With Write it writes the packets *)
(* and their bytes, which the conformance check gives to the real code.    *)
(***************************************************************************)
EXTENDS Codec, Json

CONSTANTS Ver, Write, Big
VARIABLES p, done

S0 == <<>>
S1 == <<97>>
S2 == <<195, 169, 47, 98>>                    \* e-acute / b
S3 == <<226, 130, 172>>                       \* euro
S4 == <<240, 159, 146, 169, 10>>
S5 == <<239, 191, 191, 237, 159, 191, 127>>   \* U+FFFF, U+D7FF, DEL
Fill(n) == [j \in 1..n |-> 97 + (j % 26)]
Strs == {S0, S1, S2, S3} \cup (IF Big THEN {S4, S5, Fill(127), Fill(300)} ELSE {})
Bins == {S0, <<0>>, <<255, 0, 128>>} \cup (IF Big THEN {Fill(130), Fill(256)} ELSE {})
U16s == {1, 255, 256, 65535}
U16z == U16s \cup {0}

Vals(x) ==
  CASE PType(x) = "u8" -> {<<0>>, <<1>>}
    [] PType(x) = "u16" -> {<<1>>, <<258>>, <<65535>>}
    [] PType(x) = "u32" -> {<<0, 0, 0, 1>>, <<1, 2, 3, 4>>, <<255, 255, 255, 255>>}
    [] PType(x) = "vbi" -> {<<1>>, <<127>>, <<128>>, <<16383>>, <<16384>>, <<2097151>>, <<2097152>>, <<268435455>>}
    [] PType(x) = "bin" -> Bins
    [] PType(x) = "utf" -> Strs
    [] PType(x) = "pair" -> {<<Len(k)>> \o k \o v : k \in {S0, S1, S2}, v \in {S0, S3}}
Val1(x) == CHOOSE v \in Vals(x) : TRUE
Single(pk) == {<<>>} \cup UNION {{<< <<x, v>> >> : v \in Vals(x)} : x \in PAllowed(pk)}
Pairs(pk) == {<< <<x, Val1(x)>>, <<y, Val1(y)>> >> : x, y \in {z \in PAllowed(pk) : TRUE}}
TwoProps(pk) == {q \in Pairs(pk) : q[1][1] < q[2][1] \/ (q[1][1] = q[2][1] /\ Multiple(pk, q[1][1]))}
AllOf(pk) == LET RECURSIVE A(_)
                 A(x) == IF x > 42 THEN <<>> ELSE (IF x \in PAllowed(pk) THEN << <<x, Val1(x)>> >> ELSE <<>>) \o A(x + 1)
             IN A(1)
Users(pk) == {<< <<38, <<1, 97, 98>>>>, <<38, <<1, 97, 99>>>>, <<38, <<1, 97, 98>>>> >>}
PS(pk) == IF Ver = 5 THEN {q \in Single(pk) \cup TwoProps(pk) \cup {AllOf(pk)} \cup Users(pk) : TRUE} ELSE {<<>>}
Few(pk) == IF Ver = 5 THEN {<<>>, AllOf(pk)} \cup Users(pk) ELSE {<<>>}

CONNECTs ==
  LET base == [t |-> "CONNECT", clean |-> 0, ka |-> 60, pr |-> <<>>, cid |-> S1, wf |-> 0, wq |-> 0, wr |-> 0, wpr |-> <<>>, wt |-> S0,
               wm |-> S0, uf |-> 0, user |-> S0, pf |-> 0, pass |-> S0]
  IN {[base EXCEPT !.clean = c, !.ka = k, !.cid = s] : c \in {0, 1}, k \in U16z, s \in Strs}
     \cup {[base EXCEPT !.pr = q] : q \in PS("CONNECT")}
     \cup {[base EXCEPT !.wf = 1, !.wpr = q] : q \in PS("WILL")}
     \cup {[base EXCEPT !.wf = 1, !.wq = q, !.wr = r, !.wt = s, !.wm = m, !.wpr = w] : q \in 0..2, r \in {0, 1}, s \in Strs, m \in Bins, w \in Few("WILL")}
     \cup {[base EXCEPT !.uf = u, !.user = IF u = 1 THEN s ELSE S0, !.pf = f, !.pass = IF f = 1 THEN m ELSE S0, !.wf = w,
                        !.wt = IF w = 1 THEN S2 ELSE S0, !.wm = IF w = 1 THEN S1 ELSE S0, !.cid = S3]
             : u \in {0, 1}, f \in {x \in {0, 1} : TRUE}, s \in Strs, m \in Bins, w \in {0, 1}}
CONNACKs == {[t |-> "CONNACK", sp |-> s, rc |-> r, pr |-> <<>>] : s \in {0, 1}, r \in IF Ver = 5 THEN Reasons("CONNACK") ELSE 0..5}
     \cup {[t |-> "CONNACK", sp |-> 0, rc |-> 0, pr |-> q] : q \in PS("CONNACK")}
Pays == {S0, S1, <<0, 255>>} \cup {Fill(n) : n \in 118..128}
PUBLISHes ==
  LET base == [t |-> "PUBLISH", dup |-> 0, q |-> 0, r |-> 0, topic |-> S1, id |-> 0, pr |-> <<>>, pay |-> S1, more |-> 0]
  IN {[base EXCEPT !.q = q, !.dup = d, !.r = r, !.id = i, !.topic = s, !.pay = y]
        : q \in {1, 2}, d \in {0, 1}, r \in {0, 1}, i \in U16s, s \in Strs, y \in {S0, <<0, 255>>}}
     \cup {[base EXCEPT !.r = r, !.topic = s, !.pay = y] : r \in {0, 1}, s \in Strs, y \in Pays}
     \cup {[base EXCEPT !.pr = q] : q \in PS("PUBLISH")} \cup {[base EXCEPT !.pr = q, !.q = 2, !.id = 1, !.pay = y] : q \in Few("PUBLISH"), y \in Pays}
ACKs == {[t |-> t, id |-> i, rc |-> r, pr |-> q] : t \in Acks, i \in U16s, r \in (IF Ver = 5 THEN UNION {Reasons(x) : x \in Acks} ELSE {0}), q \in Few("PUBACK")}
        \cup {[t |-> t, id |-> 7, rc |-> 0, pr |-> q] : t \in Acks, q \in PS("PUBACK")}
Opts == IF Ver = 5 THEN {[q |-> q, nl |-> n, rap |-> r, rh |-> h] : q \in 0..2, n \in {0, 1}, r \in {0, 1}, h \in 0..2}
        ELSE {[q |-> q, nl |-> 0, rap |-> 0, rh |-> 0] : q \in 0..2}
O1 == [q |-> 1, nl |-> 0, rap |-> 0, rh |-> 0]
SUBs == {[t |-> "SUBSCRIBE", id |-> i, pr |-> q, subs |-> <<[f |-> s, o |-> O1]>>] : i \in U16s, q \in PS("SUBSCRIBE"), s \in {S1, S2}}
     \cup {[t |-> "SUBSCRIBE", id |-> 1, pr |-> q, subs |-> <<[f |-> s, o |-> o], [f |-> s2, o |-> O1], [f |-> S1, o |-> o]>>] : q \in Few("SUBSCRIBE"), s, s2 \in Strs, o \in Opts}
UNSUBs == {[t |-> "UNSUBSCRIBE", id |-> i, pr |-> q, fs |-> f] : i \in U16s, q \in PS("UNSUBSCRIBE"), f \in {<<s>> : s \in Strs} \cup {<<s, S1, s2>> : s, s2 \in Strs}}
SUBACKs == {[t |-> "SUBACK", id |-> i, pr |-> q, rcs |-> r] : i \in U16s, q \in PS("PUBACK"),
              r \in {<<1>>, <<0, 1, 2, 128>>} \cup (IF Ver = 5 THEN {<<x>> : x \in Reasons("SUBACK")} ELSE {<<x>> : x \in {0, 1, 2, 128}})}
           \cup {[t |-> "UNSUBACK", id |-> i, pr |-> q, rcs |-> r] : i \in U16s, q \in PS("PUBACK"),
              r \in IF Ver = 5 THEN {<<0, 17, 135>>} \cup {<<x>> : x \in Reasons("UNSUBACK")} ELSE {<<>>}}
ENDs == {[t |-> "DISCONNECT", rc |-> r, pr |-> q] : r \in (IF Ver = 5 THEN Reasons("DISCONNECT") ELSE {0}), q \in PS("DISCONNECT")}
        \cup (IF Ver = 5 THEN {[t |-> "AUTH", rc |-> r, pr |-> q] : r \in Reasons("AUTH"), q \in PS("AUTH")} ELSE {})
        \cup {[t |-> "PINGREQ"], [t |-> "PINGRESP"]}
Fl == [dup : {0, 1}, q : 0..3, r : {0, 1}, will : {0, 1}, clean : {0, 1}, tit : 0..3]
SN == {[t |-> "CONNECT", fl |-> f, pid |-> 1, dur |-> d, cid |-> s] : f \in {x \in Fl : x.tit = 0}, d \in U16z, s \in Strs}
      \cup {[t |-> "CONNACK", rc |-> r] : r \in 0..255}
      \cup {[t |-> "PUBLISH", fl |-> f, tid |-> i, mid |-> m, data |-> y] : f \in Fl, i \in {1, 24930}, m \in {0, 258}, y \in {S0, <<0, 255>>}}
      \cup {[t |-> "PUBLISH", fl |-> CHOOSE f \in Fl : TRUE, tid |-> i, mid |-> m, data |-> y] : i \in U16z, m \in U16z,
               y \in {Fill(n) : n \in 245..255}}

WellFormed(x) == /\ (x.t \in Acks => x.rc \in Reasons(x.t) \/ (Ver = 4 /\ x.rc = 0))
                 /\ (x.t = "CONNECT" => Ver = 5 \/ x.pf = 0 \/ x.uf = 1)
Packets == IF Ver = 0 THEN SN
           ELSE {x \in CONNECTs \cup CONNACKs \cup PUBLISHes \cup ACKs \cup SUBs \cup UNSUBs \cup SUBACKs \cup ENDs : WellFormed(x)}

E(x, long) == IF Ver = 0 THEN EncSN(x) ELSE Enc(Ver, x, long)
D(b) == IF Ver = 0 THEN DecSN(b) ELSE Dec(Ver, b, 0)

Init == p \in Packets /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ p' = p
        /\ Write => PrintT(<<"CASE", ToJson([ver |-> Ver, pkt |-> p, b |-> E(p, FALSE), long |-> E(p, TRUE)])>>)

RoundTrip == \A l \in {TRUE, FALSE} : D(E(p, l)).ok /\ D(E(p, l)).pkt = p
\* bytes cut off or added are noticed
Cut == LET b == E(p, FALSE) IN \A n \in 0..(Len(b) - 1) : n < 40 => ~D(SubSeq(b, 1, n)).ok
Longer == LET b == E(p, FALSE) IN ~D(b \o <<0>>).ok
\* other flag bits mean another packet or none
FlagBits == (Ver # 0 /\ p.t # "PUBLISH") =>
  LET b == E(p, FALSE) IN \A f \in 0..15 : f # b[1] % 16 => ~D(<<((b[1] \div 16) * 16) + f>> \o Tail(b)).ok
Canonical == LET b == E(p, FALSE) IN E(D(b).pkt, FALSE) = b
=============================================================================
