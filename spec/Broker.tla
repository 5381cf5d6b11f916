------------------------------- MODULE Broker -------------------------------
(***************************************************************************)
(* The Paho test broker: MQTT 3.1.1, MQTT 5.0 and MQTT-SN clients sharing  *)
(* subscriptions and retained messages.                                    *)
(*                                                                         *)
(* A broker state is a record `s`; an input (a packet on a connection, the *)
(* end of a connection, seconds passing, ...) is a record `e`;             *)
(* Step(s, e) is the SET of states the broker may be in afterwards.  Each  *)
(* carries in s.out, per connection, the packets sent in this step, and in *)
(* s.cl the connections closed in it.  Broker.tla is used three times:     *)
(* by MCBroker (exhaustive checking of the invariants), by MCBroker under  *)
(* TLC's simulation mode (histories to replay into the real code), and by  *)
(* TraceBroker (is what the real code did a behaviour of this module?).    *)
(*                                                                         *)
(* Topics and filters are sequences of levels.  Payloads and application   *)
(* properties are opaque strings.  Time is in whole seconds.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NEVER  == -2            \* session expiry interval 0xFFFFFFFF
NOLIM  == 268435460     \* no maximum packet size
MAXID  == 65535

------------------------------------------------------------------------------
(* small helpers *)

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == (k :> v) @@ f
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
Min2(a, b)   == IF a < b THEN a ELSE b
Max2(a, b)   == IF a > b THEN a ELSE b
MaxOf(S)     == CHOOSE x \in S : \A y \in S : x >= y
Range1(q)    == {q[i] : i \in 1..Len(q)}
PermSeqs(q)  == IF Len(q) <= 1 THEN {q}
                ELSE {[i \in 1..Len(q) |-> q[p[i]]] : p \in Permutations(1..Len(q))}
RemoveNth(q, n) == SubSeq(q, 1, n-1) \o SubSeq(q, n+1, Len(q))

------------------------------------------------------------------------------
(* Topics *)

Char(str, i)  == SubSeq(str, i, i)
HasWild(l)    == \E i \in 1..Len(l) : Char(l, i) \in {"#", "+"}
IsDollar(t)   == Len(t[1]) > 0 /\ Char(t[1], 1) = "$"

\* '+' and '#' occupy a whole level, '#' only the last one; not the empty string
ValidFilter(f) ==
  /\ f # <<>> /\ f # <<"">>
  /\ \A i \in 1..Len(f) : HasWild(f[i]) => f[i] \in {"+", "#"}
  /\ \A i \in 1..Len(f) - 1 : f[i] # "#"

ValidSub(x) == /\ ValidFilter(x.f)
               /\ ~HasWild(x.share)

ValidName(t) == t # <<>> /\ t # <<"">> /\ \A i \in 1..Len(t) : ~HasWild(t[i])

RECURSIVE MatchLevels(_, _)
MatchLevels(f, t) ==
  IF f = <<>> THEN t = <<>>
  ELSE IF f[1] = "#" THEN TRUE
  ELSE IF t = <<>> THEN FALSE
  ELSE /\ (f[1] = "+" \/ f[1] = t[1])
       /\ MatchLevels(Tail(f), Tail(t))

\* Filters that do not begin with '$' never match topics beginning with '$', nor the reverse.
Matches(f, t) == IsDollar(f) = IsDollar(t) /\ MatchLevels(f, t)

------------------------------------------------------------------------------
(* State *)

NoWill == [on |-> FALSE]

(* opt: pubrel  publish on PUBREL     single  one copy for overlapping subscriptions
        drop0   drop QoS 0 for absent clients       ta, mps, rm, ska   server limits
        zlc     zero length client ids             pers    shared data survive a restart *)
Init0(o) ==
  [ opt  |-> o, now |-> 0,
    subs |-> {},                     \* [cid, share, f, q, nl, rap, sid, ver]
    ret  |-> <<>>,                   \* topic -> retained message
    sess |-> <<>>,                   \* client id -> session
    cn   |-> <<>>,                   \* open connection -> client id
    ao   |-> <<>>,                   \* connection -> aliases the broker has introduced on it
    sn   |-> <<>>,                   \* address of a connected MQTT-SN client -> its id
    mpsk |-> <<>>,                   \* connection -> maximum packet size
    tak  |-> <<>>,                   \* connection -> client's topic alias maximum
    nid  |-> 0,                      \* packet ids chosen in this step, not yet known
    out  |-> <<>>, cl |-> {} ]

(* A session: conn (0: absent), infl: unfinished outgoing messages in order (id, m, st, where
   st is "ACK" waiting for PUBACK, "REC" for PUBREC, "COMP" for PUBCOMP), queue: messages waiting
   (m, held: the id it already has or 0), inb: incomplete incoming QoS 2 ids -> stored message,
   ai: aliases the client introduced on its connection. *)

Emit(s, k, x) == [s EXCEPT !.out = Put(s.out, k, Append(Get(s.out, k, <<>>), x))]

Pkt(p) == [p |-> p, id |-> 0, rc |-> <<>>, opt |-> FALSE]

WithSess(s, c, z) == [s EXCEPT !.sess = Put(s.sess, c, z)]

------------------------------------------------------------------------------
(* Sizes of PUBLISH packets (ASCII topics) *)

VarLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4

RECURSIVE SumLen(_)
SumLen(q) == IF q = <<>> THEN 0 ELSE Len(q[1]) + SumLen(Tail(q))
TopicLen(t) == IF t = <<>> THEN 0 ELSE SumLen(t) + Len(t) - 1

RECURSIVE SidLen(_)
SidLen(q) == IF q = <<>> THEN 0 ELSE 1 + VarLen(q[1]) + SidLen(Tail(q))

Size5(tl, q, pl, props) ==
  LET rl == 2 + tl + (IF q > 0 THEN 2 ELSE 0) + VarLen(props) + props + pl
  IN 1 + VarLen(rl) + rl

\* the sizes with which message m can be sent on connection k: with the whole topic name,
\* with the topic name and a new alias, with an alias alone
Sizes(s, k, m) ==
  LET base == m.prl + (IF m.exp >= 0 THEN 5 ELSE 0) + SidLen(m.sids)
      pl   == Len(m.pay)
      full == Size5(TopicLen(m.t), m.q, pl, base)
      intro == Size5(TopicLen(m.t), m.q, pl, base + 3)
      short == Size5(0, m.q, pl, base + 3)
      ao   == Get(s.ao, k, <<>>)
  IN IF \E a \in DOMAIN ao : ao[a] = m.t THEN {short, full}
     ELSE IF Cardinality(DOMAIN ao) < Get(s.tak, k, 0) THEN {full, intro} ELSE {full}

Expired(s, m) == m.exp >= 0 /\ s.now - m.at >= m.exp

\* must (TRUE) or need not (FALSE) the message be discarded instead of sent?
Discards(s, k, m) ==
  IF Expired(s, m) THEN {TRUE}
  ELSE LET lim == Get(s.mpsk, k, NOLIM)
       IN IF lim = NOLIM THEN {FALSE}
          ELSE LET z == Sizes(s, k, m)
               IN (IF \E x \in z : x > lim THEN {TRUE} ELSE {})
                  \cup (IF \E x \in z : x <= lim THEN {FALSE} ELSE {})

------------------------------------------------------------------------------
(* Sending to a client *)

PubPkt(s, c, m, id, dup) ==
  [p |-> "PUBLISH", opt |-> FALSE, cid |-> c, id |-> id, t |-> m.t, pay |-> m.pay, q |-> m.q, d |-> dup,
   r |-> m.r, pr |-> m.pr, exp |-> IF m.exp >= 0 THEN m.exp - (s.now - m.at) ELSE -1, sids |-> m.sids]

St0(q) == IF q = 1 THEN "ACK" ELSE "REC"

\* first transmission (or, for a held id, retransmission) of a message to a connected client
SendFirst(s, c, m, held) ==
  LET z == s.sess[c]
  IN UNION { IF drop THEN {s}
       ELSE IF m.q = 0 THEN {Emit(s, z.conn, PubPkt(s, c, m, 0, 0))}
       ELSE LET id == IF held # 0 THEN held ELSE -(s.nid + 1)
                s1 == [s EXCEPT !.nid = IF held # 0 THEN @ ELSE @ + 1,
                                !.sess = Put(s.sess, c, [z EXCEPT !.infl =
                                            Append(@, [id |-> id, m |-> m, st |-> St0(m.q)])])]
            IN {Emit(s1, z.conn, PubPkt(s, c, m, id, IF held # 0 THEN 1 ELSE 0))}
       : drop \in Discards(s, z.conn, m) }

RECURSIVE SendQueued(_, _)
SendQueued(s, c) ==
  LET z == s.sess[c]
  IN IF z.queue = <<>> \/ Len(z.infl) >= z.rmax THEN {s}
     ELSE LET h == Head(z.queue)
              s1 == WithSess(s, c, [z EXCEPT !.queue = Tail(@)])
          IN UNION {SendQueued(x, c) : x \in SendFirst(s1, c, h.m, h.held)}

\* a message for client c
Deliver(s, c, m) ==
  LET z == s.sess[c]
      keep == m.q > 0 \/ ~s.opt.drop0
  IN IF z.conn = 0 \/ (Len(z.infl) >= z.rmax /\ keep)
     THEN IF keep THEN {WithSess(s, c, [z EXCEPT !.queue = Append(@, [m |-> m, held |-> 0])])} ELSE {s}
     ELSE SendFirst(s, c, m, 0)

RECURSIVE DeliverSeq(_, _, _)
DeliverSeq(S, c, ms) ==
  IF ms = <<>> THEN S
  ELSE DeliverSeq(UNION {Deliver(s, c, Head(ms)) : s \in S}, c, Tail(ms))

------------------------------------------------------------------------------
(* Routing *)

SidSeq(S) == \* the subscription identifiers of a set of subscriptions
  LET q == SetToSeq(S)
      RECURSIVE g(_)
      g(i) == IF i > Len(q) THEN <<>> ELSE (IF q[i].sid > 0 THEN <<q[i].sid>> ELSE <<>>) \o g(i+1)
  IN SortSeq(g(1), <)

\* copy of message m for a subscriber speaking version ver
Copy(m, q, r, sids, ver) ==
  IF ver = 5 THEN [m EXCEPT !.q = q, !.r = r, !.sids = sids]
  ELSE [m EXCEPT !.q = q, !.r = r, !.sids = <<>>, !.pr = "", !.prl = 0, !.exp = -1]

RapR(m, u) == IF m.r = 1 /\ u.rap THEN 1 ELSE 0

\* the orders in which messages q may be given to client c; what a recorded history shows about
\* their order is put to use there (TraceBroker)
Orders(s, c, q) == PermSeqs(q)

\* the copies of m for client c through its ordinary subscriptions U (whose QoS, or RETAIN, may be open)
OrdCopies(s, c, U, from, m) ==
  LET sat == {u \in U : ~(u.nl /\ c = from)}
      ver == s.sess[c].ver
      one(u) == Copy(m, Min2(u.q, m.q), RapR(m, u), SidSeq({u}), ver)
  IN IF sat = {} THEN {<<>>}
     ELSE IF s.opt.single
     THEN LET mq == MaxOf({u.q : u \in sat})
          IN {<<Copy(m, Min2(mq, m.q), RapR(m, u), SidSeq(sat), ver)>> : u \in {v \in sat : v.q = mq}}
     ELSE LET us == SetToSeq(sat) IN {[i \in 1..Len(us) |-> one(us[i])]}

RECURSIVE ForClients(_, _, _, _, _, _)
\* deliver to each of the clients C; choice: group -> the chosen subscription
ForClients(S, C, ordinary, choice, from, m) ==
  IF C = {} THEN S
  ELSE LET c == CHOOSE x \in C : TRUE
           chosen == {choice[g] : g \in {h \in DOMAIN choice : choice[h].cid = c}}
           D(s) ==
             IF c \notin DOMAIN s.sess THEN {s}
             ELSE LET sh == SetToSeq({u \in chosen : ~(u.nl /\ c = from)})
                      shc == [i \in 1..Len(sh) |-> Copy(m, Min2(sh[i].q, m.q), RapR(m, sh[i]), SidSeq({sh[i]}), s.sess[c].ver)]
                  IN UNION {UNION {DeliverSeq({s}, c, x) : x \in Orders(s, c, o \o shc)} :
                              o \in OrdCopies(s, c, {u \in ordinary : u.cid = c}, from, m)}
       IN ForClients(UNION {D(s) : s \in S}, C \ {c}, ordinary, choice, from, m)

Hits(s, t) == {u \in s.subs : Matches(u.f, t)}

\* Message m (with retain flag m.r) published by client id `from`.
Publish(s, from, m) ==
  LET s1 == IF m.r = 0 THEN s
            ELSE IF Len(m.pay) = 0 THEN [s EXCEPT !.ret = Del(@, m.t)]
            ELSE [s EXCEPT !.ret = Put(@, m.t, m)]
      hits == Hits(s, m.t)
      ordinary == {u \in hits : u.share = ""}
      groups == {<<u.share, u.f>> : u \in hits \ ordinary}
      members(g) == {u \in hits : u.share = g[1] /\ u.f = g[2]}
      choices == {ch \in [groups -> hits \ ordinary] : \A g \in groups : ch[g] \in members(g)}
  IN IF hits = {} THEN {s1}
     ELSE UNION { ForClients({s1}, {u.cid : u \in ordinary} \cup {ch[g].cid : g \in groups}, ordinary, ch, from, m)
                  : ch \in choices }

\* did anybody receive it?  (reason code 16 may be given only if not)
Nobody(s, from, t) == \A u \in Hits(s, t) : u.nl /\ u.cid = from

Message(t, pay, q, r, pr, prl, exp, at) ==
  [t |-> t, pay |-> pay, q |-> q, r |-> r, pr |-> pr, prl |-> prl, exp |-> exp, at |-> at, sids |-> <<>>]

------------------------------------------------------------------------------
(* End of a connection, of a session; wills *)

DropSession(s, c) == [s EXCEPT !.sess = Del(@, c), !.subs = {u \in @ : u.cid # c}]

WillMessage(s, w) == Message(w.t, w.pay, w.q, w.r, w.pr, w.prl, w.exp, s.now)

\* the will of session c is published now
SendWill(s, c) ==
  LET w  == s.sess[c].will
      s1 == WithSess(s, c, [s.sess[c] EXCEPT !.will = NoWill, !.wdue = -1])
  IN IF ~w.on THEN {s1} ELSE Publish(s1, c, WillMessage(s1, w))

\* Connection k ends.  exc: DISCONNECT packet (or nothing) sent first
EndConn(s, k, withWill) ==
  LET c  == s.cn[k]
      z  == s.sess[c]
      s1 == [s EXCEPT !.cn = Del(@, k), !.cl = @ \cup {k}]
      z1 == [z EXCEPT !.conn = 0, !.ai = <<>>, !.ended = s.now]
      fin(x) == IF z.exp = 0 THEN DropSession(x, c) ELSE x
  IN IF ~withWill \/ ~z.will.on
     THEN {fin(WithSess(s1, c, [z1 EXCEPT !.will = NoWill, !.wdue = -1]))}
     ELSE IF z.wdelay > 0 /\ z.exp # 0
     THEN {WithSess(s1, c, [z1 EXCEPT !.wdue = s.now + z.wdelay])}
     ELSE {fin(x) : x \in SendWill(WithSess(s1, c, z1), c)}

CloseOnly(s, k) == [s EXCEPT !.cl = @ \cup {k}]

\* connection k is closed because of an error.  rcs: the reason codes a 5.0 DISCONNECT may carry
Offend(s, k, rcs, must) ==
  IF k \notin DOMAIN s.cn THEN {CloseOnly(s, k)}
  ELSE LET v == s.sess[s.cn[k]].ver
           s1 == IF v = 5 THEN Emit(s, k, [Pkt("DISCONNECT") EXCEPT !.rc = rcs, !.opt = ~must]) ELSE s
       IN EndConn(s1, k, TRUE)

AnyError == 128..162

------------------------------------------------------------------------------
(* CONNECT *)

\* messages of a resumed session: in flight again (at most rmax PUBLISHes), the rest wait
RECURSIVE Resend(_, _, _, _)
Resend(s, c, todo, wait) ==
  IF todo = <<>>   \* those for which there is no room come before everything already waiting
  THEN SendQueued(WithSess(s, c, [s.sess[c] EXCEPT !.queue = wait \o @]), c)
  ELSE LET x == Head(todo)
           z == s.sess[c]
       IN IF x.st = "COMP"
          THEN Resend(Emit(WithSess(s, c, [z EXCEPT !.infl = Append(@, x)]), z.conn,
                           [Pkt("PUBREL") EXCEPT !.id = x.id, !.rc = {0}]), c, Tail(todo), wait)
          ELSE IF Len(z.infl) < z.rmax
          THEN UNION {Resend(IF drop THEN s
                             ELSE Emit(WithSess(s, c, [z EXCEPT !.infl = Append(@, x)]), z.conn,
                                       PubPkt(s, c, x.m, x.id, 1)), c, Tail(todo), wait)
                      : drop \in Discards(s, z.conn, x.m)}
          ELSE Resend(s, c, Tail(todo), Append(wait, [m |-> x.m, held |-> x.id]))

WDelay(e) == IF e.will.on THEN (IF e.exp = NEVER THEN e.will.delay ELSE Min2(e.will.delay, e.exp)) ELSE 0

ConnackPkt(s, e, sp) ==
  [Pkt("CONNACK") EXCEPT !.rc = {0}] @@
  [sp |-> sp, acid |-> IF e.cid = "" /\ e.ver = 5 THEN e.acid ELSE "",
   lim |-> IF e.ver = 5
           THEN << s.opt.rm, s.opt.mps, s.opt.ta, IF e.ka > s.opt.ska THEN s.opt.ska ELSE -1 >> ELSE <<>>]

SessionOver(s, c) == \* an absent session whose interval has passed (it may still be in the store)
  /\ c \in DOMAIN s.sess
  /\ s.sess[c].conn = 0 /\ s.sess[c].exp # NEVER
  /\ s.now - s.sess[c].ended > s.sess[c].exp

ConnectTo(s, e, c) ==
  LET k    == e.k
      over == e.clean \/ SessionOver(s, c)
      old  == c \in DOMAIN s.sess
      due  == old /\ s.sess[c].wdue >= 0
      \* the end of the old session, with its delayed will if it was still due
      S1   == IF over /\ old
              THEN {DropSession(x, c) : x \in IF due THEN SendWill([s EXCEPT !.subs = {u \in @ : u.cid # c}], c) ELSE {s}}
              ELSE IF over /\ e.clean THEN {[s EXCEPT !.subs = {u \in @ : u.cid # c}]}
              ELSE {s}
      Z(x) == LET r == c \in DOMAIN x.sess
                  z == IF r THEN x.sess[c] ELSE [infl |-> <<>>, queue |-> <<>>, inb |-> <<>>]
              IN [ ver |-> e.ver, conn |-> k, exp |-> IF e.ver = 5 THEN e.exp ELSE IF e.clean THEN 0 ELSE NEVER,
                   ended |-> 0, infl |-> <<>>, queue |-> z.queue, inb |-> z.inb,
                   will |-> e.will, wdelay |-> WDelay(e), wdue |-> -1,
                   ka |-> IF e.ver = 5 /\ e.ka > s.opt.ska THEN s.opt.ska ELSE e.ka, last |-> s.now,
                   ai |-> <<>>, rmax |-> e.rmax ]
      go(x) == LET sp == IF c \in DOMAIN x.sess THEN 1 ELSE 0
                   todo == IF sp = 1 THEN x.sess[c].infl ELSE <<>>
                   x1 == [WithSess(x, c, Z(x)) EXCEPT !.cn = Put(@, k, c), !.ao = Put(@, k, <<>>),
                             !.mpsk = Put(@, k, e.mps), !.tak = Put(@, k, e.tamax)]
               IN Resend(Emit(x1, k, ConnackPkt(s, e, sp)), c, todo, <<>>)
  IN UNION {go(x) : x \in S1}

Connect(s, e) ==
  LET k == e.k
  IN IF k \in DOMAIN s.cn THEN Offend(s, k, AnyError, FALSE)
     ELSE IF e.ver = 4 /\ e.cid = "" /\ (~e.clean \/ ~s.opt.zlc)
     THEN {CloseOnly(Emit(s, k, [Pkt("CONNACK") EXCEPT !.rc = {2}] @@ [sp |-> 0, acid |-> "", lim |-> <<>>]), k)}
     ELSE IF e.ver = 5 /\ (e.rmax = 0 \/ e.mps = 0 \/ e.len > s.opt.mps)
     THEN {CloseOnly(s, k)}
     ELSE IF e.cid = "" THEN (IF e.acid \in DOMAIN s.sess \/ e.acid = "" THEN {} ELSE ConnectTo(s, e, e.acid))
     ELSE IF e.cid \in DOMAIN s.sess /\ s.sess[e.cid].conn # 0
     THEN LET ok == s.sess[e.cid].conn
              s1 == IF s.sess[e.cid].ver = 5
                    THEN Emit(s, ok, [Pkt("DISCONNECT") EXCEPT !.rc = {142}]) ELSE s
          IN UNION {ConnectTo(x, e, e.cid) : x \in EndConn(s1, ok, TRUE)}
     ELSE ConnectTo(s, e, e.cid)

------------------------------------------------------------------------------
(* SUBSCRIBE, UNSUBSCRIBE *)

Sub(c, x, q, e, ver) ==
  [cid |-> c, share |-> x.share, f |-> x.f, q |-> q, nl |-> ver = 5 /\ x.nl, rap |-> ver = 5 /\ x.rap,
   sid |-> IF ver = 5 THEN e.sid ELSE 0, ver |-> ver]

Refused(x) == x.share = "" /\ x.f = <<"test", "nosubscribe">>
Granted(x) == IF x.share = "" /\ x.f = <<"test", "QoS 1 only">> THEN Min2(1, x.q)
              ELSE IF x.share = "" /\ x.f = <<"test", "QoS 0 only">> THEN 0 ELSE x.q

SameSub(u, c, x) == u.cid = c /\ u.share = x.share /\ u.f = x.f

RECURSIVE AddSubs(_, _, _, _)
\* -> <<subscriptions, for each filter: did it exist>>
AddSubs(subs, c, e, i) ==
  IF i > Len(e.subs) THEN <<subs, <<>>>>
  ELSE LET x == e.subs[i]
       IN IF Refused(x) THEN LET r == AddSubs(subs, c, e, i+1) IN <<r[1], <<TRUE>> \o r[2]>>
          ELSE LET was == \E u \in subs : SameSub(u, c, x)
                   new == {u \in subs : ~SameSub(u, c, x)} \cup {Sub(c, x, Granted(x), e, e.ver)}
                   r == AddSubs(new, c, e, i+1)
               IN <<r[1], <<was>> \o r[2]>>

RetainedFor(s, f) == {t \in DOMAIN s.ret : Matches(f, t)}

\* what the filters ask for of the retained messages, in any order
RetainedCopies(s, e, was) ==
  LET wanted(i) == /\ ~Refused(e.subs[i]) /\ e.subs[i].share = ""
                   /\ (e.ver = 4 \/ e.subs[i].rh = 0 \/ (e.subs[i].rh = 1 /\ ~was[i]))
      Ms(i) == LET ts == SetToSeq(RetainedFor(s, e.subs[i].f))
               IN [j \in 1..Len(ts) |->
                    LET m == s.ret[ts[j]]
                    IN Copy(m, Min2(m.q, Granted(e.subs[i])), 1, IF e.sid > 0 THEN <<e.sid>> ELSE <<>>, e.ver)]
      RECURSIVE all(_)
      all(i) == IF i > Len(e.subs) THEN <<>> ELSE (IF wanted(i) THEN Ms(i) ELSE <<>>) \o all(i+1)
  IN all(1)

SendRetained(s, c, e, was) ==
  UNION {DeliverSeq({s}, c, ms) : ms \in Orders(s, c, RetainedCopies(s, e, was))}

Subscribe(s, e) ==
  LET c == s.cn[e.k]
  IN IF e.subs = <<>> \/ \E i \in 1..Len(e.subs) : ~Refused(e.subs[i]) /\ ~ValidSub(e.subs[i])
     THEN Offend(s, e.k, AnyError, FALSE)
     ELSE LET r == AddSubs(s.subs, c, e, 1)
              codes == [i \in 1..Len(e.subs) |-> IF Refused(e.subs[i]) THEN 128 ELSE Granted(e.subs[i])]
          IN {Emit(x, e.k, [Pkt("SUBACK") EXCEPT !.id = e.id, !.rc = codes])
               : x \in SendRetained([s EXCEPT !.subs = r[1]], c, e, r[2])}

RECURSIVE RemoveSubs(_, _, _, _)
RemoveSubs(subs, c, e, i) ==
  IF i > Len(e.subs) THEN <<subs, <<>>>>
  ELSE LET was == \E u \in subs : SameSub(u, c, e.subs[i])
           r == RemoveSubs({u \in subs : ~SameSub(u, c, e.subs[i])}, c, e, i+1)
       IN <<r[1], <<IF was THEN 0 ELSE 17>> \o r[2]>>

Unsubscribe(s, e) ==
  LET c == s.cn[e.k]
      ver == s.sess[c].ver
  IN IF e.subs = <<>> \/ \E i \in 1..Len(e.subs) : ~ValidFilter(e.subs[i].f) \/ HasWild(e.subs[i].share)
     THEN Offend(s, e.k, AnyError, FALSE)
     ELSE LET r == RemoveSubs(s.subs, c, e, 1)
          IN {Emit([s EXCEPT !.subs = r[1]], e.k,
                   [Pkt("UNSUBACK") EXCEPT !.id = e.id, !.rc = IF ver = 5 THEN r[2] ELSE <<>>])}

------------------------------------------------------------------------------
(* PUBLISH and the acknowledgements *)

\* reason codes: 0, or 16 if nobody was there to receive it
AckCodes(ver, nobody) == IF ver = 5 /\ nobody THEN {0, 16} ELSE {0}

Accept(s, e, t) ==
  LET k == e.k
      c == s.cn[k]
      z == s.sess[c]
      m == Message(t, e.pay, e.q, e.r, e.pr, e.prl, e.exp, s.now)
      resent == e.q = 2 /\ e.id \in DOMAIN z.inb
      nobody == Nobody(s, c, t)
  IN IF z.ver = 5 /\ e.q > 0 /\ ~resent /\ Cardinality(DOMAIN z.inb) >= s.opt.rm
     THEN Offend(s, k, {147}, TRUE)
     ELSE IF e.q = 0 THEN Publish(s, c, m)
     ELSE IF e.q = 1
     THEN {Emit(x, k, [Pkt("PUBACK") EXCEPT !.id = e.id, !.rc = AckCodes(z.ver, nobody)])
             : x \in Publish(s, c, m)}
     ELSE LET rec(x) == Emit(x, k, [Pkt("PUBREC") EXCEPT !.id = e.id, !.rc = IF z.ver = 5 THEN {0, 16} ELSE {0}])
              s1 == WithSess(s, c, [z EXCEPT !.inb = Put(@, e.id, m)])
          IN IF resent THEN {rec(s)}
             ELSE IF s.opt.pubrel THEN {rec(s1)}
             ELSE {rec(x) : x \in Publish(s1, c, m)}

PublishIn(s, e) ==
  LET k == e.k
      c == s.cn[k]
      z == s.sess[c]
      known == e.al \in DOMAIN z.ai
  IN IF e.t # <<>> /\ ~ValidName(e.t) THEN Offend(s, k, AnyError, FALSE)
     ELSE IF z.ver = 4 \/ e.al = -1
     THEN (IF e.t = <<>> THEN Offend(s, k, AnyError, FALSE) ELSE Accept(s, e, e.t))
     ELSE IF e.al = 0 \/ e.al > s.opt.ta \/ (e.t = <<>> /\ ~known) THEN Offend(s, k, {148}, TRUE)
     ELSE IF e.t = <<>> THEN Accept(s, e, z.ai[e.al])
     ELSE Accept(WithSess(s, c, [z EXCEPT !.ai = Put(@, e.al, e.t)]), e, e.t)

InflPos(z, id) == LET P == {i \in 1..Len(z.infl) : z.infl[i].id = id}
                  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : TRUE

Finish(s, c, i) == SendQueued(WithSess(s, c, [s.sess[c] EXCEPT !.infl = RemoveNth(@, i)]), c)

Puback(s, e) ==
  LET c == s.cn[e.k]
      z == s.sess[c]
      i == InflPos(z, e.id)
  IN IF i # 0 /\ z.infl[i].st = "ACK" THEN Finish(s, c, i) ELSE {s}

Pubrec(s, e) ==
  LET c == s.cn[e.k]
      z == s.sess[c]
      i == InflPos(z, e.id)
  IN IF i # 0 /\ z.infl[i].st = "REC"
     THEN IF z.ver = 5 /\ e.rc >= 128 THEN Finish(s, c, i)
          ELSE {Emit(WithSess(s, c, [z EXCEPT !.infl[i].st = "COMP"]), e.k,
                     [Pkt("PUBREL") EXCEPT !.id = e.id, !.rc = {0}])}
     \* otherwise nothing changes (a PUBREL may be repeated, or say that the id is not known)
     ELSE {Emit(s, e.k, [Pkt("PUBREL") EXCEPT !.id = e.id, !.opt = TRUE,
                           !.rc = IF i # 0 /\ z.infl[i].st = "COMP" THEN {0} ELSE {146}])}

Pubcomp(s, e) ==
  LET c == s.cn[e.k]
      z == s.sess[c]
      i == InflPos(z, e.id)
  IN IF i # 0 /\ z.infl[i].st = "COMP" THEN Finish(s, c, i) ELSE {s}

Pubrel(s, e) ==
  LET c == s.cn[e.k]
      z == s.sess[c]
      known == e.id \in DOMAIN z.inb
      s1 == WithSess(s, c, [z EXCEPT !.inb = Del(@, e.id)])
      comp(x) == Emit(x, e.k, [Pkt("PUBCOMP") EXCEPT !.id = e.id,
                                 !.rc = IF known \/ z.ver = 4 THEN {0} ELSE {0, 146}])
  IN IF known /\ s.opt.pubrel THEN {comp(x) : x \in Publish(s1, c, z.inb[e.id])}
     ELSE {comp(s1)}

Disconnect(s, e) ==
  LET c == s.cn[e.k]
      z == s.sess[c]
  IN IF z.ver = 4 THEN EndConn(s, e.k, FALSE)
     ELSE IF e.exp # -1 /\ z.exp = 0 /\ e.exp # 0 THEN Offend(s, e.k, {130}, FALSE)
     ELSE LET x == IF e.exp = -1 THEN z.exp ELSE e.exp
              z1 == [z EXCEPT !.exp = x, !.wdelay = IF x = NEVER THEN @ ELSE Min2(@, x)]
          IN EndConn(WithSess(s, c, z1), e.k, e.rc # 0)

------------------------------------------------------------------------------
(* Time *)

RECURSIVE SendWills(_, _)
SendWills(s, C) == \* in any order
  IF C = {} THEN {s}
  ELSE UNION {UNION {SendWills(x, C \ {c}) : x \in SendWill(s, c)} : c \in C}

RECURSIVE DropAll(_, _)
DropAll(s, C) == IF C = {} THEN s ELSE LET c == CHOOSE x \in C : TRUE IN DropAll(DropSession(s, c), C \ {c})

RECURSIVE Silence(_, _)
\* connections of which nothing was heard for more than one and a half keep alive times
Silence(S, ks) ==
  IF ks = <<>> THEN S
  ELSE LET k == Head(ks)
           D(s) == IF k \notin DOMAIN s.cn THEN {s}
                   ELSE LET z == s.sess[s.cn[k]]
                        IN IF z.ka > 0 /\ 2 * (s.now - z.last) > 3 * z.ka
                           THEN EndConn(IF z.ver = 5
                                        THEN Emit(s, k, [Pkt("DISCONNECT") EXCEPT !.rc = {141}, !.opt = TRUE]) ELSE s,
                                        k, TRUE)
                           ELSE {s}
       IN Silence(UNION {D(s) : s \in S}, Tail(ks))

Second(s) ==
  LET s1 == [s EXCEPT !.now = @ + 1]
      due == {c \in DOMAIN s1.sess : s1.sess[c].wdue >= 0 /\ s1.now >= s1.sess[c].wdue}
      over(x) == {c \in DOMAIN x.sess : SessionOver(x, c)}
  IN Silence({DropAll(x, over(x)) : x \in SendWills(s1, due)}, SortSeq(SetToSeq(DOMAIN s1.cn), <))

RECURSIVE Seconds(_, _)
Seconds(S, n) == IF n = 0 THEN S ELSE Seconds(UNION {Second(s) : s \in S}, n - 1)

------------------------------------------------------------------------------
(* Everything else *)

\* MQTT-SN: CONNECT from address e.k; PUBLISH of a two-character topic, with QoS -1 from anybody
\* (e.q = 3, as on the wire), with QoS 0 from a connected client only
SNConnect(s, e) ==
  LET sn1 == [x \in {y \in DOMAIN s.sn : s.sn[y] # e.cid} |-> s.sn[x]]
  IN {Emit([s EXCEPT !.sn = Put(sn1, e.k, e.cid)], e.k, [Pkt("SNCONNACK") EXCEPT !.rc = {0}])}

SNPublish(s, e) ==
  IF e.q = 3 THEN Publish(s, "", Message(e.t, e.pay, 0, e.r, "", 0, -1, s.now))
  ELSE IF e.k \in DOMAIN s.sn THEN Publish(s, s.sn[e.k], Message(e.t, e.pay, 0, e.r, "", 0, -1, s.now))
  ELSE {s}

(* The HTTP interface, a view of the shared state: all: what the answer must list; may: what it may list besides.
   A message that has expired is gone when it would be sent, at the latest. *)
HttpReply(s, e) ==
  LET r == [Pkt("HTTP") EXCEPT !.rc = {200}] @@ [all |-> {}, may |-> {}]
      old(t) == s.ret[t].exp >= 0 /\ s.now - s.ret[t].at >= s.ret[t].exp
      line(t) == <<t, s.ret[t].pay, s.ret[t].q>>
      T == {t \in DOMAIN s.ret : ~IsDollar(t)}
      one(c) == <<c, s.sess[c].conn # 0, s.sess[c].exp = 0>>
      C == {c \in DOMAIN s.sess : s.sess[c].ver = 4}
  IN CASE e.pr # ""                -> [r EXCEPT !.rc = {404}]         \* another method than GET
       [] e.pay = "retained"      -> [r EXCEPT !.all = {line(t) : t \in {x \in T : ~old(x)}}, !.may = {line(t) : t \in {x \in T : old(x)}}]
       [] e.pay = "subscriptions" -> [r EXCEPT !.all = {<<u.cid, u.share, u.f, IF u.ver = 4 THEN u.q ELSE -1>> : u \in {x \in s.subs : ~IsDollar(x.f)}}]
       [] e.pay = "clients"       -> [r EXCEPT !.all = {one(c) : c \in C}]
       [] e.pay = "client" /\ e.cid \in C -> [r EXCEPT !.all = {one(e.cid)}]
       [] OTHER                   -> [r EXCEPT !.rc = {404}]

\* the broker is stopped in an orderly way and started again, a second later: with persistence the shared data remain
Restart(s) ==
  LET gone == {c \in DOMAIN s.sess : s.sess[c].conn # 0 /\ s.sess[c].exp = 0}
      s1 == DropAll(s, gone)
      bye(k) == [Pkt("DISCONNECT") EXCEPT !.rc = {139}, !.opt = TRUE]
      v5 == {k \in DOMAIN s.cn : s.sess[s.cn[k]].ver = 5}
  IN {[Init0(s.opt) EXCEPT !.now = s.now + 1, !.cl = DOMAIN s.cn, !.out = [k \in v5 |-> <<bye(k)>>],
         !.subs = IF s.opt.pers THEN s1.subs ELSE {},
         !.ret = IF s.opt.pers THEN s1.ret ELSE <<>>]}

Heard(S, k) == \* a packet of connection k has been handled
  {IF k \in DOMAIN s.cn THEN [s EXCEPT !.sess[s.cn[k]].last = s.now] ELSE s : s \in S}

Clear(s) == [s EXCEPT !.out = <<>>, !.cl = {}, !.nid = 0, !.ao = [k \in DOMAIN @ \cap DOMAIN s.cn |-> @[k]]]

Act(s, e) ==
  IF e.e = "TICK" THEN Seconds({s}, e.d)
  ELSE IF e.e = "RESTART" THEN Restart(s)
  ELSE IF e.e = "REINIT"
  THEN {[s EXCEPT !.subs = {}, !.ret = <<>>, !.sess = <<>>, !.cn = <<>>, !.sn = <<>>, !.cl = {}]}
  ELSE IF e.e = "SNCONN" THEN SNConnect(s, e)
  ELSE IF e.e = "SNPUB" THEN SNPublish(s, e)
  ELSE IF e.e = "HTTP" THEN {Emit(s, e.k, HttpReply(s, e))}
  ELSE IF e.e # "DROP" /\ e.k \in DOMAIN s.cn /\ s.sess[s.cn[e.k]].ver = 5 /\ e.len > s.opt.mps
  THEN Offend(s, e.k, {149}, TRUE)            \* larger than the broker takes
  ELSE IF e.e = "CONNECT" THEN Heard(Connect(s, e), e.k)
  ELSE IF e.k \notin DOMAIN s.cn THEN {CloseOnly(s, e.k)}
  ELSE IF e.e = "DROP" THEN EndConn(s, e.k, TRUE)
  ELSE IF e.e = "BAD" THEN Offend(s, e.k, AnyError, FALSE)
  ELSE Heard(
     CASE e.e = "SUBSCRIBE"   -> Subscribe(s, e)
       [] e.e = "UNSUBSCRIBE" -> Unsubscribe(s, e)
       [] e.e = "PUBLISH"     -> PublishIn(s, e)
       [] e.e = "PUBACK"      -> Puback(s, e)
       [] e.e = "PUBREC"      -> Pubrec(s, e)
       [] e.e = "PUBREL"      -> Pubrel(s, e)
       [] e.e = "PUBCOMP"     -> Pubcomp(s, e)
       [] e.e = "PINGREQ"     -> {Emit(s, e.k, Pkt("PINGRESP"))}
       [] e.e = "DISCONNECT"  -> Disconnect(s, e), e.k)

\* two packets handled at the same time: as if one after the other
\* packets that arrive together are handled one after the other
RECURSIVE Acts(_, _)
Acts(S, es) == IF es = <<>> THEN S ELSE Acts(UNION {Act(x, es[1]) : x \in S}, Tail(es))

Step(s, e) ==
  IF e.e = "BATCH" THEN Acts({Clear(s)}, e.evs)
  ELSE IF e.e = "PAIR"
  THEN UNION {Act(x, e.b) : x \in Act(Clear(s), e.a)} \cup UNION {Act(x, e.a) : x \in Act(Clear(s), e.b)}
  ELSE Act(Clear(s), e)

=============================================================================
