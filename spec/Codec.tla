-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* The wire formats of MQTT 5.0, MQTT 3.1.1 and (the part in use of)       *)
(* MQTT-SN 1.2, byte by byte.  Bytes are sequences of 0..255.              *)
(*                                                                         *)
(*   Dec(ver, b, more)   what the bytes mean: [ok |-> TRUE, pkt, odd] or   *)
(*                       [ok |-> FALSE].  `more` payload bytes follow that *)
(*                       are not written out.  odd: a receiver may also    *)
(*                       refuse it, for reasons beyond the format          *)
(*   Enc(ver, p, long)   the bytes of a packet (long: optional parts are   *)
(*                       written although they could be left out)          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

At(b, i) == b[i]
U16(b, i) == b[i] * 256 + b[i + 1]
I16(n) == <<n \div 256, n % 256>>
RangeOf(q) == {q[j] : j \in 1..Len(q)}

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))

------------------------------------------------------------------------------
(* Variable byte integers *)
RECURSIVE VBIEnc(_)
VBIEnc(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o VBIEnc(n \div 128)

No == [ok |-> FALSE, v |-> 0, i |-> 0, min |-> TRUE]

\* at position i, before e
VBI(b, i, e) ==
  IF i >= e THEN No
  ELSE IF b[i] < 128 THEN [ok |-> TRUE, v |-> b[i], i |-> i + 1, min |-> TRUE]
  ELSE IF i + 1 >= e THEN No
  ELSE IF b[i + 1] < 128 THEN [ok |-> TRUE, v |-> b[i] - 128 + 128 * b[i + 1], i |-> i + 2, min |-> b[i + 1] # 0]
  ELSE IF i + 2 >= e THEN No
  ELSE IF b[i + 2] < 128 THEN [ok |-> TRUE, v |-> b[i] - 128 + 128 * (b[i + 1] - 128) + 16384 * b[i + 2], i |-> i + 3, min |-> b[i + 2] # 0]
  ELSE IF i + 3 >= e THEN No
  ELSE IF b[i + 3] < 128 THEN [ok |-> TRUE, v |-> b[i] - 128 + 128 * (b[i + 1] - 128) + 16384 * (b[i + 2] - 128) + 2097152 * b[i + 3],
                               i |-> i + 4, min |-> b[i + 3] # 0]
  ELSE No

------------------------------------------------------------------------------
(* UTF-8, without U+0000 and surrogates *)
Lead(x) == IF x < 128 THEN 1 ELSE IF x < 192 THEN 0 ELSE IF x \in 194..223 THEN 2 ELSE IF x \in 224..239 THEN 3
           ELSE IF x \in 240..244 THEN 4 ELSE 9
UTF8(s) == \A i \in 1..Len(s) :
  LET L == Lead(s[i]) IN
  /\ s[i] # 0
  /\ L # 9
  /\ L >= 2 => /\ i + L - 1 <= Len(s)
               /\ \A j \in 1..(L - 1) : Lead(s[i + j]) = 0
               /\ s[i] = 224 => s[i + 1] >= 160
               /\ s[i] = 237 => s[i + 1] <= 159
               /\ s[i] = 240 => s[i + 1] >= 144
               /\ s[i] = 244 => s[i + 1] <= 143
  /\ L = 0 => \E d \in 1..3 : i - d >= 1 /\ Lead(s[i - d]) > d /\ Lead(s[i - d]) # 9 /\ \A x \in 1..(d - 1) : Lead(s[i - x]) = 0

------------------------------------------------------------------------------
(* Properties of MQTT 5.0: a sequence of <<identifier, value>>, the value as a sequence of integers *)
PType(x) ==
  CASE x \in {1, 23, 25, 36, 37, 40, 41, 42} -> "u8"
    [] x \in {19, 33, 34, 35} -> "u16"
    [] x \in {2, 17, 24, 39} -> "u32"
    [] x = 11 -> "vbi"
    [] x \in {9, 22} -> "bin"
    [] x \in {3, 8, 18, 21, 26, 28, 31} -> "utf"
    [] x = 38 -> "pair"
    [] OTHER -> ""
PAllowed(pk) ==
  CASE pk = "CONNECT" -> {17, 21, 22, 23, 25, 33, 34, 38, 39}
    [] pk = "CONNACK" -> {17, 18, 19, 21, 22, 26, 28, 31, 33, 34, 36, 37, 38, 39, 40, 41, 42}
    [] pk = "PUBLISH" -> {1, 2, 3, 8, 9, 11, 35, 38}
    [] pk = "WILL" -> {1, 2, 3, 8, 9, 24, 38}
    [] pk \in {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK"} -> {31, 38}
    [] pk = "SUBSCRIBE" -> {11, 38}
    [] pk = "UNSUBSCRIBE" -> {38}
    [] pk = "DISCONNECT" -> {17, 28, 31, 38}
    [] pk = "AUTH" -> {21, 22, 31, 38}
Multiple(pk, x) == x = 38 \/ (x = 11 /\ pk = "PUBLISH")

\* a field of kind `kind` at i, before e
Field(b, i, e, kind) ==
  CASE kind = "u8"  -> IF i >= e THEN No ELSE [ok |-> TRUE, v |-> <<b[i]>>, i |-> i + 1]
    [] kind = "u16" -> IF i + 1 >= e THEN No ELSE [ok |-> TRUE, v |-> <<U16(b, i)>>, i |-> i + 2]
    [] kind = "u32" -> IF i + 3 >= e THEN No ELSE [ok |-> TRUE, v |-> SubSeq(b, i, i + 3), i |-> i + 4]
    [] kind = "vbi" -> LET x == VBI(b, i, e) IN IF x.ok /\ x.min THEN [ok |-> TRUE, v |-> <<x.v>>, i |-> x.i] ELSE No
    [] kind \in {"bin", "utf"} ->
         IF i + 1 >= e THEN No
         ELSE LET n == U16(b, i)
                  s == SubSeq(b, i + 2, i + 1 + n)
              IN IF i + 2 + n > e THEN No
                 ELSE IF kind = "utf" /\ ~UTF8(s) THEN No
                 ELSE [ok |-> TRUE, v |-> s, i |-> i + 2 + n]
    [] kind = "pair" ->
         IF i + 1 >= e THEN No
         ELSE LET n == U16(b, i)
                  s == SubSeq(b, i + 2, i + 1 + n)
              IN IF i + 2 + n > e THEN No
                 ELSE IF ~UTF8(s) THEN No
                 ELSE LET j == i + 2 + n IN
                   IF j + 1 >= e THEN No
                   ELSE LET m == U16(b, j)
                            t == SubSeq(b, j + 2, j + 1 + m)
                        IN IF j + 2 + m > e THEN No
                           ELSE IF ~UTF8(t) THEN No
                           ELSE [ok |-> TRUE, v |-> <<n>> \o s \o t, i |-> j + 2 + m]

RECURSIVE PropsFrom(_, _, _, _, _)
PropsFrom(b, i, e, pk, got) ==
  IF i = e THEN [ok |-> TRUE, v |-> got, i |-> e]
  ELSE LET x == VBI(b, i, e) IN
    IF ~x.ok THEN No
    ELSE IF ~x.min \/ x.v \notin PAllowed(pk) THEN No
    ELSE IF ~Multiple(pk, x.v) /\ (\E j \in 1..Len(got) : got[j][1] = x.v) THEN No
    ELSE LET f == Field(b, x.i, e, PType(x.v)) IN
      IF ~f.ok THEN No
      ELSE IF PType(x.v) = "u8" /\ f.v[1] > 1 THEN No
      ELSE IF x.v = 11 /\ f.v[1] = 0 THEN No
      ELSE PropsFrom(b, f.i, e, pk, Append(got, <<x.v, f.v>>))

\* grouped by identifier, as the order of different properties has no meaning
RECURSIVE Group(_, _)
Group(ps, x) == IF x > 42 THEN <<>> ELSE SelectSeq(ps, LAMBDA y : y[1] = x) \o Group(ps, x + 1)

Props(b, i, e, pk) ==
  LET n == VBI(b, i, e) IN
  IF ~n.ok THEN No
  ELSE IF ~n.min \/ n.i + n.v > e THEN No
  ELSE LET r == PropsFrom(b, n.i, n.i + n.v, pk, <<>>) IN
       IF r.ok THEN [ok |-> TRUE, v |-> Group(r.v, 1), i |-> r.i] ELSE No

EncField(kind, v) ==
  CASE kind = "u8" -> v
    [] kind = "u16" -> I16(v[1])
    [] kind = "u32" -> v
    [] kind = "vbi" -> VBIEnc(v[1])
    [] kind \in {"bin", "utf"} -> I16(Len(v)) \o v
    [] kind = "pair" -> I16(v[1]) \o SubSeq(v, 2, v[1] + 1) \o I16(Len(v) - v[1] - 1) \o SubSeq(v, v[1] + 2, Len(v))
EncProps(ps) ==
  LET body == Flat([j \in 1..Len(ps) |-> <<ps[j][1]>> \o EncField(PType(ps[j][1]), ps[j][2])])
  IN VBIEnc(Len(body)) \o body

------------------------------------------------------------------------------
(* A row of fields: kinds as in Field, or "p:PACKET" for the properties of that packet *)
PropsKind(kind) == CASE kind = "p:CONNECT" -> "CONNECT" [] kind = "p:CONNACK" -> "CONNACK" [] kind = "p:PUBLISH" -> "PUBLISH"
  [] kind = "p:WILL" -> "WILL" [] kind = "p:PUBACK" -> "PUBACK" [] kind = "p:SUBSCRIBE" -> "SUBSCRIBE"
  [] kind = "p:UNSUBSCRIBE" -> "UNSUBSCRIBE" [] kind = "p:DISCONNECT" -> "DISCONNECT" [] kind = "p:AUTH" -> "AUTH" [] OTHER -> ""

RECURSIVE Row(_, _, _, _, _)
Row(b, i, e, kinds, vals) ==
  IF kinds = <<>> THEN [ok |-> TRUE, v |-> vals, i |-> i]
  ELSE LET f == IF PropsKind(kinds[1]) # "" THEN Props(b, i, e, PropsKind(kinds[1])) ELSE Field(b, i, e, kinds[1])
       IN IF f.ok THEN Row(b, f.i, e, Tail(kinds), Append(vals, f.v)) ELSE No

\* rows one after another up to the end
RECURSIVE Rows(_, _, _, _, _)
Rows(b, i, e, kinds, got) ==
  IF i = e THEN [ok |-> TRUE, v |-> got, i |-> i]
  ELSE LET r == Row(b, i, e, kinds, <<>>) IN IF r.ok THEN Rows(b, r.i, e, kinds, Append(got, r.v)) ELSE No

------------------------------------------------------------------------------
Types == <<"CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK",
           "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH">>
TypeNo(t) == CHOOSE n \in 1..15 : Types[n] = t
Acks == {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"}

Reasons(t) ==
  CASE t = "CONNACK" -> {0} \cup (128..138) \cup {140, 144, 149, 151, 153, 154, 155, 156, 157, 159}
    [] t \in {"PUBACK", "PUBREC"} -> {0, 16, 128, 131, 135, 144, 145, 151, 153}
    [] t \in {"PUBREL", "PUBCOMP"} -> {0, 146}
    [] t = "SUBACK" -> {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162}
    [] t = "UNSUBACK" -> {0, 17, 128, 131, 135, 143, 145}
    [] t = "DISCONNECT" -> {0, 4, 128, 129, 130, 131, 135, 137, 139, 140, 141, 142, 143, 144} \cup (147..162)
    [] t = "AUTH" -> {0, 24, 25}

Flags(t) == IF t \in {"PUBREL", "SUBSCRIBE", "UNSUBSCRIBE"} THEN 2 ELSE 0
Bad == [ok |-> FALSE, pkt |-> <<>>, odd |-> FALSE]
OK(p) == [ok |-> TRUE, pkt |-> p, odd |-> FALSE]
Bit(x, n) == (x \div n) % 2
Is5(ver) == ver = 5
MQTT == <<77, 81, 84, 84>>

DecConnect(ver, b, i, e) ==
  LET h == Row(b, i, e, <<"utf", "u8", "u8", "u16">> \o (IF Is5(ver) THEN <<"p:CONNECT">> ELSE <<>>), <<>>) IN
  IF ~h.ok THEN Bad
  ELSE LET fl == h.v[3][1]
           wf == Bit(fl, 4)
           wq == (fl \div 8) % 4
           wr == Bit(fl, 32)
           uf == Bit(fl, 128)
           pf == Bit(fl, 64)
           x == Row(b, h.i, e, <<"utf">> \o (IF wf = 1 THEN (IF Is5(ver) THEN <<"p:WILL">> ELSE <<>>) \o <<"utf", "bin">> ELSE <<>>)
                               \o (IF uf = 1 THEN <<"utf">> ELSE <<>>) \o (IF pf = 1 THEN <<"bin">> ELSE <<>>), <<>>)
           w0 == IF wf = 1 /\ Is5(ver) THEN 2 ELSE 1   \* before the will topic
           u0 == IF wf = 1 THEN w0 + 2 ELSE 1          \* before the user name
       IN IF h.v[1] # MQTT \/ (Is5(ver) /\ h.v[2] # <<5>>) \/ fl % 2 = 1 THEN Bad
          ELSE IF (wf = 1 /\ wq = 3) \/ (wf = 0 /\ (wq # 0 \/ wr # 0)) \/ (~Is5(ver) /\ pf = 1 /\ uf = 0) THEN Bad
          ELSE IF ~x.ok THEN Bad
          ELSE IF x.i # e THEN Bad
          ELSE [OK([t |-> "CONNECT", clean |-> Bit(fl, 2), ka |-> h.v[4][1], pr |-> IF Is5(ver) THEN h.v[5] ELSE <<>>, cid |-> x.v[1],
                   wf |-> wf, wq |-> wq, wr |-> wr, wpr |-> IF wf = 1 /\ Is5(ver) THEN x.v[2] ELSE <<>>,
                   wt |-> IF wf = 1 THEN x.v[w0 + 1] ELSE <<>>, wm |-> IF wf = 1 THEN x.v[w0 + 2] ELSE <<>>,
                   uf |-> uf, user |-> IF uf = 1 THEN x.v[u0 + 1] ELSE <<>>,
                   pf |-> pf, pass |-> IF pf = 1 THEN x.v[u0 + uf + 1] ELSE <<>>]) EXCEPT !.odd = h.v[2] # <<ver>>]  \* another protocol level: for the server to answer

DecPublish(ver, b, i, e, fl, more) ==
  LET q == (fl \div 2) % 4
      h == Row(b, i, e, <<"utf">> \o (IF q > 0 THEN <<"u16">> ELSE <<>>) \o (IF Is5(ver) THEN <<"p:PUBLISH">> ELSE <<>>), <<>>)
  IN IF q = 3 \/ ~h.ok \/ (q = 0 /\ fl >= 8) THEN Bad
     ELSE IF q > 0 /\ h.v[2][1] = 0 THEN Bad
     ELSE OK([t |-> "PUBLISH", dup |-> Bit(fl, 8), q |-> q, r |-> Bit(fl, 1), topic |-> h.v[1], id |-> IF q > 0 THEN h.v[2][1] ELSE 0,
              pr |-> IF Is5(ver) THEN h.v[Len(h.v)] ELSE <<>>, pay |-> SubSeq(b, h.i, e - 1), more |-> more])

DecAck(ver, b, i, e, t) ==
  LET n == e - i
      h == Row(b, i, e, <<"u16">> \o (IF n > 2 THEN <<"u8">> ELSE <<>>) \o (IF n > 3 THEN <<"p:PUBACK">> ELSE <<>>), <<>>)
  IN IF ~h.ok \/ (~Is5(ver) /\ n # 2) THEN Bad
     ELSE IF h.i # e \/ (n > 2 /\ h.v[2][1] \notin Reasons(t)) THEN Bad
     ELSE OK([t |-> t, id |-> h.v[1][1], rc |-> IF n > 2 THEN h.v[2][1] ELSE 0, pr |-> IF n > 3 THEN h.v[3] ELSE <<>>])

DecReason(b, i, e, t) ==    \* DISCONNECT and AUTH of 5.0
  LET n == e - i
      h == Row(b, i, e, (IF n > 0 THEN <<"u8">> ELSE <<>>) \o (IF n > 1 THEN <<IF t = "AUTH" THEN "p:AUTH" ELSE "p:DISCONNECT">> ELSE <<>>), <<>>)
  IN IF ~h.ok THEN Bad
     ELSE IF h.i # e \/ (n > 0 /\ h.v[1][1] \notin Reasons(t)) THEN Bad
     ELSE [OK([t |-> t, rc |-> IF n > 0 THEN h.v[1][1] ELSE 0, pr |-> IF n > 1 THEN h.v[2] ELSE <<>>])
          EXCEPT !.odd = t = "AUTH" /\ n = 1]   \* 3.15.2.1 allows to leave out both or nothing

DecConnack(ver, b, i, e) ==
  LET h == Row(b, i, e, <<"u8", "u8">> \o (IF Is5(ver) THEN <<"p:CONNACK">> ELSE <<>>), <<>>) IN
  IF ~h.ok THEN Bad
  ELSE IF h.i # e \/ h.v[1][1] > 1 \/ (Is5(ver) /\ h.v[2][1] \notin Reasons("CONNACK")) THEN Bad
  ELSE OK([t |-> "CONNACK", sp |-> h.v[1][1], rc |-> h.v[2][1], pr |-> IF Is5(ver) THEN h.v[3] ELSE <<>>])

Option(x) == [q |-> x % 4, nl |-> Bit(x, 4), rap |-> Bit(x, 8), rh |-> (x \div 16) % 4]
OptionOK(ver, x) == IF Is5(ver) THEN x < 64 /\ x % 4 # 3 /\ (x \div 16) # 3 ELSE x <= 2
DecSubscribe(ver, b, i, e) ==
  LET h == Row(b, i, e, <<"u16">> \o (IF Is5(ver) THEN <<"p:SUBSCRIBE">> ELSE <<>>), <<>>) IN
  IF ~h.ok THEN Bad
  ELSE LET r == Rows(b, h.i, e, <<"utf", "u8">>, <<>>) IN
    IF ~r.ok \/ h.v[1][1] = 0 THEN Bad
    ELSE IF r.v = <<>> \/ (\E j \in 1..Len(r.v) : ~OptionOK(ver, r.v[j][2][1])) THEN Bad
    ELSE OK([t |-> "SUBSCRIBE", id |-> h.v[1][1], pr |-> IF Is5(ver) THEN h.v[2] ELSE <<>>,
             subs |-> [j \in 1..Len(r.v) |-> [f |-> r.v[j][1], o |-> Option(r.v[j][2][1])]]])

DecUnsubscribe(ver, b, i, e) ==
  LET h == Row(b, i, e, <<"u16">> \o (IF Is5(ver) THEN <<"p:UNSUBSCRIBE">> ELSE <<>>), <<>>) IN
  IF ~h.ok THEN Bad
  ELSE LET r == Rows(b, h.i, e, <<"utf">>, <<>>) IN
    IF ~r.ok \/ h.v[1][1] = 0 THEN Bad
    ELSE IF r.v = <<>> THEN Bad
    ELSE OK([t |-> "UNSUBSCRIBE", id |-> h.v[1][1], pr |-> IF Is5(ver) THEN h.v[2] ELSE <<>>, fs |-> [j \in 1..Len(r.v) |-> r.v[j][1]]])

DecSuback(ver, b, i, e, t) ==
  LET h == Row(b, i, e, <<"u16">> \o (IF Is5(ver) THEN <<"p:PUBACK">> ELSE <<>>), <<>>) IN
  IF ~h.ok THEN Bad
  ELSE LET rs == SubSeq(b, h.i, e - 1)
           may == IF Is5(ver) THEN Reasons(t) ELSE IF t = "SUBACK" THEN {0, 1, 2, 128} ELSE {}
       IN IF RangeOf(rs) \subseteq may
          THEN OK([t |-> t, id |-> h.v[1][1], pr |-> IF Is5(ver) THEN h.v[2] ELSE <<>>, rcs |-> rs])
          ELSE Bad

\* well-formed, but a receiver may have reasons to refuse it
Has(ps, x, v) == \E j \in 1..Len(ps) : ps[j][1] = x /\ ps[j][2] = v
HasP(ps, x) == \E j \in 1..Len(ps) : ps[j][1] = x
Wild(s) == 35 \in RangeOf(s) \/ 43 \in RangeOf(s)
OddProps(ps) == \/ Has(ps, 33, <<0>>) \/ Has(ps, 35, <<0>>) \/ Has(ps, 39, <<0, 0, 0, 0>>)
                \/ (HasP(ps, 22) /\ ~HasP(ps, 21))
                \/ \E j \in 1..Len(ps) : ps[j][1] = 8 /\ (Wild(ps[j][2]) \/ ps[j][2] = <<>>)
Odd(ver, p) ==
  \/ "pr" \in DOMAIN p /\ OddProps(p.pr)
  \/ p.t = "CONNECT" /\ (OddProps(p.wpr) \/ (p.wf = 1 /\ (Wild(p.wt) \/ p.wt = <<>>)))
  \/ p.t \in Acks \cup {"SUBACK", "UNSUBACK"} /\ p.id = 0
  \/ p.t = "SUBACK" /\ p.rcs = <<>>
  \/ p.t = "DISCONNECT" /\ p.rc = 140    \* in table 2.4, not in 3.14.2.1
  \/ p.t = "UNSUBACK" /\ ver = 5 /\ p.rcs = <<>>
  \/ p.t = "PUBLISH" /\ (Wild(p.topic) \/ p.topic = <<>>)
  \/ p.t = "SUBSCRIBE" /\ \E j \in 1..Len(p.subs) : p.subs[j].f = <<>>
  \/ p.t = "UNSUBSCRIBE" /\ \E j \in 1..Len(p.fs) : p.fs[j] = <<>>
  \/ p.t = "CONNACK" /\ ((p.sp = 1 /\ p.rc # 0) \/ (ver = 4 /\ p.rc > 5))

Dec(ver, b, more) ==
  IF Len(b) < 2 THEN Bad
  ELSE LET ty == b[1] \div 16
           fl == b[1] % 16
           n == VBI(b, 2, Len(b) + 1)
       IN IF ty = 0 \/ ~n.ok THEN Bad
          ELSE LET t == Types[ty]
                   i == n.i
                   e == Len(b) + 1
                   r == CASE t = "CONNECT" -> DecConnect(ver, b, i, e)
                          [] t = "CONNACK" -> DecConnack(ver, b, i, e)
                          [] t = "PUBLISH" -> DecPublish(ver, b, i, e, fl, more)
                          [] t \in Acks -> DecAck(ver, b, i, e, t)
                          [] t = "SUBSCRIBE" -> DecSubscribe(ver, b, i, e)
                          [] t = "UNSUBSCRIBE" -> DecUnsubscribe(ver, b, i, e)
                          [] t \in {"SUBACK", "UNSUBACK"} -> DecSuback(ver, b, i, e, t)
                          [] t \in {"PINGREQ", "PINGRESP"} -> IF i = e THEN OK([t |-> t]) ELSE Bad
                          [] t = "DISCONNECT" -> IF Is5(ver) THEN DecReason(b, i, e, t)
                                                 ELSE IF i = e THEN OK([t |-> t, rc |-> 0, pr |-> <<>>]) ELSE Bad
                          [] t = "AUTH" -> IF Is5(ver) THEN DecReason(b, i, e, t) ELSE Bad
               IN IF (Is5(ver) /\ ~n.min) \/ n.v # e - i + more \/ (t # "PUBLISH" /\ fl # Flags(t)) THEN Bad
                  ELSE IF ~r.ok THEN Bad
                  ELSE [r EXCEPT !.odd = r.odd \/ Odd(ver, r.pkt) \/ ~n.min]

------------------------------------------------------------------------------
Str(s) == I16(Len(s)) \o s
Pr(ver, ps) == IF Is5(ver) THEN EncProps(ps) ELSE <<>>
EncOption(ver, o) == IF Is5(ver) THEN o.q + 4 * o.nl + 8 * o.rap + 16 * o.rh ELSE o.q

Body(ver, p, long) ==
  CASE p.t = "CONNECT" ->
         Str(MQTT) \o <<ver, 2 * p.clean + 4 * p.wf + 8 * p.wq + 32 * p.wr + 64 * p.pf + 128 * p.uf>> \o I16(p.ka) \o Pr(ver, p.pr)
         \o Str(p.cid) \o (IF p.wf = 1 THEN Pr(ver, p.wpr) \o Str(p.wt) \o Str(p.wm) ELSE <<>>)
         \o (IF p.uf = 1 THEN Str(p.user) ELSE <<>>) \o (IF p.pf = 1 THEN Str(p.pass) ELSE <<>>)
    [] p.t = "CONNACK" -> <<p.sp, p.rc>> \o Pr(ver, p.pr)
    [] p.t = "PUBLISH" -> Str(p.topic) \o (IF p.q > 0 THEN I16(p.id) ELSE <<>>) \o Pr(ver, p.pr) \o p.pay
    [] p.t \in Acks -> I16(p.id) \o (IF ~Is5(ver) \/ (~long /\ p.rc = 0 /\ p.pr = <<>>) THEN <<>>
                                     ELSE <<p.rc>> \o (IF long \/ p.pr # <<>> THEN EncProps(p.pr) ELSE <<>>))
    [] p.t = "SUBSCRIBE" -> I16(p.id) \o Pr(ver, p.pr) \o Flat([j \in 1..Len(p.subs) |-> Str(p.subs[j].f) \o <<EncOption(ver, p.subs[j].o)>>])
    [] p.t = "UNSUBSCRIBE" -> I16(p.id) \o Pr(ver, p.pr) \o Flat([j \in 1..Len(p.fs) |-> Str(p.fs[j])])
    [] p.t \in {"SUBACK", "UNSUBACK"} -> I16(p.id) \o Pr(ver, p.pr) \o p.rcs
    [] p.t \in {"PINGREQ", "PINGRESP"} -> <<>>
    [] p.t \in {"DISCONNECT", "AUTH"} -> IF ~Is5(ver) \/ (~long /\ p.rc = 0 /\ p.pr = <<>>) THEN <<>>
                                         ELSE <<p.rc>> \o (IF long \/ p.pr # <<>> THEN EncProps(p.pr) ELSE <<>>)

Enc(ver, p, long) ==
  LET body == Body(ver, p, long)
      fl == IF p.t = "PUBLISH" THEN 8 * p.dup + 2 * p.q + p.r ELSE Flags(p.t)
  IN <<16 * TypeNo(p.t) + fl>> \o VBIEnc(Len(body)) \o body

------------------------------------------------------------------------------
(* MQTT-SN: CONNECT, CONNACK and PUBLISH; the length counts itself *)
SNFlags(x) == [dup |-> Bit(x, 128), q |-> (x \div 32) % 4, r |-> Bit(x, 16), will |-> Bit(x, 8), clean |-> Bit(x, 4), tit |-> x % 4]
SNFlagByte(f) == 128 * f.dup + 32 * f.q + 16 * f.r + 8 * f.will + 4 * f.clean + f.tit
DecSN(b) ==
  IF Len(b) < 2 THEN Bad
  ELSE LET i == IF b[1] = 1 THEN 4 ELSE 2
           n == IF b[1] = 1 THEN (IF Len(b) >= 3 THEN U16(b, 2) ELSE 0) ELSE b[1]
       IN IF n # Len(b) \/ Len(b) < i THEN Bad
          ELSE CASE b[i] = 4 -> IF Len(b) < i + 4 THEN Bad
                                ELSE IF ~UTF8(SubSeq(b, i + 5, Len(b))) THEN Bad
                                ELSE OK([t |-> "CONNECT", fl |-> SNFlags(b[i + 1]), pid |-> b[i + 2], dur |-> U16(b, i + 3), cid |-> SubSeq(b, i + 5, Len(b))])
                 [] b[i] = 5 -> IF Len(b) # i + 1 THEN Bad ELSE OK([t |-> "CONNACK", rc |-> b[i + 1]])
                 [] b[i] = 12 -> IF Len(b) < i + 5 THEN Bad
                                 ELSE OK([t |-> "PUBLISH", fl |-> SNFlags(b[i + 1]), tid |-> U16(b, i + 2), mid |-> U16(b, i + 4),
                                          data |-> SubSeq(b, i + 6, Len(b))])
                 [] OTHER -> Bad
EncSN(p) ==
  LET body == CASE p.t = "CONNECT" -> <<4, SNFlagByte(p.fl), p.pid>> \o I16(p.dur) \o p.cid
                [] p.t = "CONNACK" -> <<5, p.rc>>
                [] p.t = "PUBLISH" -> <<12, SNFlagByte(p.fl)>> \o I16(p.tid) \o I16(p.mid) \o p.data
  IN (IF Len(body) + 1 < 256 THEN <<Len(body) + 1>> ELSE <<1>> \o I16(Len(body) + 3)) \o body
=============================================================================
