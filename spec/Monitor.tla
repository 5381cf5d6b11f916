------------------------------ MODULE Monitor ------------------------------
(***************************************************************************)
(* The properties of the broker, stated over what can be observed: the     *)
(* inputs and the packets sent in each step.  The monitor h keeps its own, *)
(* simpler account of the history (it does not look at the queues, flight  *)
(* lists or sessions of the state of Broker.tla) and collects in h.bad the *)
(* names of the properties that a step violated.  MCBroker checks that     *)
(* h.bad stays empty.                                                      *)
(*                                                                         *)
(* Publications made by the environment have distinct payloads.            *)
(***************************************************************************)
EXTENDS Broker

H0 == [ n    |-> 0,        \* publications so far
        now  |-> 0,
        sub  |-> {},       \* subscriptions in force: [c, share, f, q, nl, rap, sid]
        on   |-> <<>>,     \* connection -> client id
        cl   |-> <<>>,     \* client id -> session: [ver, exp, end (-1: connected), rmax, mps, ka, heard, will, wd, wdue]
        inb  |-> <<>>,     \* client id -> (packet id -> publication) of incoming QoS 2
        al   |-> <<>>,     \* connection -> (alias -> topic) set by the client
        due  |-> <<>>,     \* client id -> copies owed to it with QoS 1 or 2, in order: <<payload, qos>>
        fst  |-> <<>>,     \* client id -> copies sent to it for the first time with QoS 1 or 2, in order
        lost |-> <<>>,     \* client id -> payloads that may have been dropped (expired, too large)
        open |-> <<>>,     \* client id -> unfinished outgoing: sequence of [id, pay, q, st, cur (sent on this connection)]
        ret  |-> <<>>,     \* topic -> payload
        msg  |-> <<>>,     \* payload -> [t, pr, exp, at, from, q, r]
        bad  |-> {} ]

Flag(h, ok, name) == IF ok THEN h ELSE [h EXCEPT !.bad = @ \cup {name}]

IsPub(x) == x.p = "PUBLISH"
Outs(s1, k) == Get(s1.out, k, <<>>)
Pubs(q) == SelectSeq(q, IsPub)
AllKs(s1) == DOMAIN s1.out

HMatch(h, t) == {u \in h.sub : Matches(u.f, t)}

----------------------------------------------------------------------------
(* One publication m = [pay, t, q, r, from] reaches its subscribers: what is owed to whom *)
Owed(h, m, c) ==  \* the QoS of the copies client c must get through its ordinary subscriptions, highest first
  LET U == {u \in HMatch(h, m.t) : u.share = "" /\ u.c = c /\ ~(u.nl /\ c = m.from)}
  IN IF U = {} THEN <<>> ELSE <<Min2(m.q, MaxOf({u.q : u \in U}))>>

Connected(h, c) == c \in DOMAIN h.cl /\ h.cl[c].end = -1
ConnOf(h, c) == CHOOSE k \in DOMAIN h.on : h.on[k] = c

CountPay(q, pay) == Cardinality({i \in 1..Len(q) : IsPub(q[i]) /\ q[i].pay = pay /\ q[i].r = 0 /\ q[i].d = 0})

\* the step routed m: everything that was sent of it in this step is right
RoutedOk(o, h, s1, m) ==
  LET cs == DOMAIN h.cl
      live(c) == Outs(s1, ConnOf(h, c))
      copies(c) == SelectSeq(live(c), LAMBDA x : IsPub(x) /\ x.pay = m.pay)
      shared == {u \in HMatch(h, m.t) : u.share # ""}
      groups == {<<u.share, u.f>> : u \in shared}
      total  == Cardinality({<<c, i>> \in {c \in cs : Connected(h, c)} \X (1..20) : i <= Len(copies(c))})
      h1 == Flag(h, \A c \in cs : (Connected(h, c) /\ ~(\E u \in HMatch(h, m.t) : u.c = c)) => copies(c) = <<>>, "B01: sent to a client without a matching subscription")
      h2 == Flag(h1, \A c \in cs : Connected(h, c) =>
                \A i \in 1..Len(copies(c)) :
                   /\ copies(c)[i].t = m.t
                   /\ copies(c)[i].q <= m.q
                   /\ copies(c)[i].pr = IF h.cl[c].ver = 5 THEN m.pr ELSE "", "B01/B13/B21: wrong copy")
      h3 == Flag(h2, (o.single /\ shared = {}) =>
                \A c \in cs : (Connected(h, c) /\ h.cl[c].mps = NOLIM) =>
                    LET w == Owed(h, m, c) IN
                      IF w = <<>> THEN Len(copies(c)) = 0
                      ELSE /\ Len(copies(c)) <= 1
                           /\ (w[1] = 0 /\ o.drop0) => Len(copies(c)) = 1
                           /\ Len(copies(c)) = 1 => copies(c)[1].q = w[1], "B01/B13: not one copy with the right QoS")
      h4 == Flag(h3, (shared # {} /\ m.q = 0 /\ \A u \in HMatch(h, m.t) : u.share # "" /\ Connected(h, u.c))
                         => total = Cardinality(groups), "B14: not one copy for each group")
      h5 == Flag(h4, \A c \in cs : Connected(h, c) => \A i \in 1..Len(copies(c)) : h.cl[c].ver = 5 =>
                copies(c)[i].sids \in {SortSeq(q, <) : q \in
                    UNION {PermSeqs(LET Q == SetToSeq({u \in S : u.sid > 0}) IN [j \in 1..Len(Q) |-> Q[j].sid])
                           : S \in (SUBSET {u \in HMatch(h, m.t) : u.c = c}) \ {{}}}}, "B13: subscription identifiers")
  IN h5

Route(o, h, s1, m) ==
  LET h0 == [h EXCEPT !.n = @ + 1,
                      !.msg = Put(@, m.pay, [t |-> m.t, pr |-> m.pr, exp |-> m.exp, at |-> h.now, from |-> m.from, q |-> m.q, r |-> m.r]),
                      !.ret = IF m.r = 0 THEN @ ELSE IF m.pay = "" THEN Del(@, m.t) ELSE Put(@, m.t, m.pay)]
      owe(c) == LET w == Owed(h0, m, c) IN IF w # <<>> /\ w[1] > 0 THEN <<<<m.pay, w[1]>>>> ELSE <<>>
      h1 == [h0 EXCEPT !.due = [c \in DOMAIN h0.cl |-> Get(h0.due, c, <<>>) \o owe(c)]]
  IN RoutedOk(o, h1, s1, m)

----------------------------------------------------------------------------
(* What one client was sent in a step updates its account *)

OpenPos(q, id) == LET P == {i \in 1..Len(q) : q[i].id = id} IN IF P = {} THEN 0 ELSE MaxOf(P)

Sent1(h, c, x) == \* packet x was sent to client c
  LET q == Get(h.open, c, <<>>)
      i == OpenPos(q, x.id)
      z == h.cl[c]
      m == h.msg[x.pay]
      room == Cardinality({j \in 1..Len(q) : q[j].cur /\ j # i}) < z.rmax
  IN IF x.p = "PUBLISH"
     THEN LET g1 == Flag(h, x.exp = (IF m.exp >= 0 /\ z.ver = 5 THEN m.exp - (h.now - m.at) ELSE -1)
                             /\ (z.ver = 5 => x.exp # 0), "B19: remaining expiry interval")
              g2 == Flag(g1, x.pay # "" => x.t = m.t, "B18: topic")
              g3 == Flag(g2, x.r = 1 => (h.msg[x.pay].r = 1), "B11: RETAIN set on a copy of an ordinary message")
          IN IF x.q = 0 THEN g3
             ELSE IF x.d = 0
             THEN LET \* the message that had the id may have been given up when the session was resumed
                      given == i # 0 /\ ~q[i].cur /\ (z.mps # NOLIM \/ (h.msg[q[i].pay].exp >= 0 /\ h.now - h.msg[q[i].pay].at >= h.msg[q[i].pay].exp))
                      q1 == IF given THEN RemoveNth(q, i) ELSE q
                      g == Flag(Flag(g3, x.id \in 1..MAXID /\ (i = 0 \/ given), "B06: packet id in use"),
                                z.ver = 5 => room, "B10: more in flight than the receive maximum")
                  IN [g EXCEPT !.open = Put(@, c, Append(q1, [id |-> x.id, pay |-> x.pay, q |-> x.q, st |-> St0(x.q), cur |-> TRUE])),
                               !.fst  = IF x.r = 1 /\ ~\E j \in 1..Len(Get(h.due, c, <<>>)) : h.due[c][j][1] = x.pay
                                        THEN @ ELSE Put(@, c, Append(Get(@, c, <<>>), <<x.pay, x.q>>))]
             ELSE LET ok == i # 0 /\ q[i].pay = x.pay /\ q[i].q = x.q /\ q[i].st # "COMP" /\ ~q[i].cur
                      g == Flag(Flag(g3, ok, "B04: DUP copy of something not in flight"), z.ver = 5 => room, "B10: more resent than the receive maximum")
                  IN IF ok THEN [g EXCEPT !.open[c][i].cur = TRUE] ELSE g
     ELSE IF x.p = "PUBREL" /\ ~x.opt
     THEN LET ok == i # 0 /\ q[i].q = 2 /\ q[i].st = "COMP"
              g == Flag(h, ok, "B03: PUBREL without a PUBREC")
          IN IF ok THEN [g EXCEPT !.open[c][i].cur = TRUE] ELSE g
     ELSE h

RECURSIVE SentAll(_, _, _)
SentAll(h, c, q) == IF q = <<>> THEN h ELSE SentAll(Sent1(h, c, q[1]), c, Tail(q))

RECURSIVE SentKs(_, _, _)
SentKs(h, s1, ks) ==
  IF ks = {} THEN h
  ELSE LET k == CHOOSE x \in ks : TRUE
       IN SentKs(IF k \in DOMAIN h.on THEN SentAll(h, h.on[k], Outs(s1, k)) ELSE h, s1, ks \ {k})

\* an acknowledgement by client c
AckOf(h, c, e) ==
  LET q == Get(h.open, c, <<>>)
      i == OpenPos(q, e.id)
      rm == [h EXCEPT !.open = Put(@, c, RemoveNth(q, i))]
  IN IF i = 0 \/ ~q[i].cur THEN h   \* (not sent on this connection: not the answer to anything)
     ELSE IF e.e = "PUBACK" /\ q[i].q = 1 THEN rm
     ELSE IF e.e = "PUBREC" /\ q[i].st = "REC" THEN
          (IF h.cl[c].ver = 5 /\ e.rc >= 128 THEN rm
           ELSE [h EXCEPT !.open = Put(@, c, [q EXCEPT ![i].st = "COMP"])])
     ELSE IF e.e = "PUBCOMP" /\ q[i].st = "COMP" THEN rm
     ELSE h

----------------------------------------------------------------------------
(* Sessions *)

NoSession(h, c) == [h EXCEPT !.cl = Del(@, c), !.due = Del(@, c), !.fst = Del(@, c), !.open = Del(@, c), !.inb = Del(@, c),
                             !.sub = {u \in @ : u.c # c}]
Over(h, c) == /\ h.cl[c].end >= 0
              /\ \/ h.cl[c].exp = 0
                 \/ h.cl[c].exp > 0 /\ h.now - h.cl[c].end > h.cl[c].exp

\* the connection of client c ended; is its will to be published now?
WillNow(h, c, abnormal) == abnormal /\ h.cl[c].will.on /\ (h.cl[c].wd = 0 \/ h.cl[c].exp = 0)
WillPub(w, c) == [pay |-> w.pay, t |-> w.t, q |-> w.q, r |-> w.r, pr |-> w.pr, exp |-> w.exp, from |-> c]

Gone(h, k, abnormal) == \* without publishing
  LET c == h.on[k]
      z == h.cl[c]
      h1 == [h EXCEPT !.on = Del(@, k), !.al = Del(@, k),
                      !.cl[c].end = h.now,
                      !.cl[c].wdue = IF abnormal /\ z.will.on /\ z.wd > 0 /\ z.exp # 0 THEN h.now + z.wd ELSE -1,
                      !.cl[c].will = IF abnormal THEN @ ELSE NoWill,
                      !.open = IF c \in DOMAIN @ THEN [@ EXCEPT ![c] = [j \in 1..Len(@) |-> [@[j] EXCEPT !.cur = FALSE]]] ELSE @]
  IN h1

Finish1(h, c) == IF c \in DOMAIN h.cl /\ Over(h, c) THEN NoSession(h, c) ELSE h

\* the connection k ended in step s1
End(o, h, s1, k, abnormal) ==
  LET c == h.on[k]
      w == h.cl[c].will
      h1 == Gone(h, k, abnormal)
      h2 == IF WillNow(h, c, abnormal) THEN [Route(o, h1, s1, WillPub(w, c)) EXCEPT !.cl[c].will = NoWill] ELSE h1
  IN Finish1(h2, c)

RECURSIVE EndAll(_, _, _, _)
EndAll(o, h, s1, ks) ==
  IF ks = {} THEN h
  ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y
       IN EndAll(o, IF k \in DOMAIN h.on THEN End(o, h, s1, k, TRUE) ELSE h, s1, ks \ {k})

\* no will is published in this step but those of the clients C
WillsOnly(h, s1, C) ==
  Flag(h, \A k \in AllKs(s1) : \A i \in 1..Len(s1.out[k]) :
     LET x == s1.out[k][i]
     IN (IsPub(x) /\ x.d = 0 /\ x.r = 0 /\ x.pay \notin DOMAIN h.msg) => \E c \in C : c \in DOMAIN h.cl /\ h.cl[c].will.on /\ h.cl[c].will.pay = x.pay,
     "B15: a will that is not due")

----------------------------------------------------------------------------
(* Inputs *)

Closed(s1, k) == k \in s1.cl

Publication(h, c, e, t) == [pay |-> e.pay, t |-> t, q |-> e.q, r |-> e.r, pr |-> e.pr, exp |-> e.exp, from |-> c]

OnPublish(o, h, s1, e) ==
  LET c == h.on[e.k]
      al == Get(h.al, e.k, <<>>)
      okal == e.al = -1 \/ (e.al \in 1..o.ta /\ (e.t # <<>> \/ e.al \in DOMAIN al))
      t == IF e.t # <<>> THEN e.t ELSE IF e.al \in DOMAIN al THEN al[e.al] ELSE <<>>
      inb == Get(h.inb, c, <<>>)
      dup == e.q = 2 /\ e.id \in DOMAIN inb
      over == h.cl[c].ver = 5 /\ e.q > 0 /\ ~dup /\ Cardinality(DOMAIN inb) >= o.rm
      big == h.cl[c].ver = 5 /\ e.len > o.mps
      fine == okal /\ t # <<>> /\ ValidName(t) /\ ~over /\ ~big
      ack == SelectSeq(Outs(s1, e.k), LAMBDA x : x.p \in {"PUBACK", "PUBREC"})
      h0 == Flag(h, fine = (e.k \notin s1.cl), "B18/B20/B10/B24: publication wrongly accepted or refused")
      h1 == IF e.al \in 1..o.ta /\ e.t # <<>> /\ fine THEN [h0 EXCEPT !.al = Put(@, e.k, Put(al, e.al, e.t))] ELSE h0
      h2 == Flag(h1, fine => (IF e.q = 0 THEN ack = <<>>
                     ELSE Len(ack) = 1 /\ ack[1].id = e.id /\ ack[1].p = IF e.q = 1 THEN "PUBACK" ELSE "PUBREC"), "B02: acknowledgement of PUBLISH")
      pub == Publication(h, c, e, t)
      h3 == IF ~fine THEN End(o, h2, s1, e.k, TRUE)
            ELSE IF e.q < 2 THEN Route(o, h2, s1, pub)
            ELSE IF dup THEN h2
            ELSE LET g == [h2 EXCEPT !.inb = Put(@, c, Put(inb, e.id, pub))]
                 IN IF o.pubrel THEN g ELSE Route(o, g, s1, pub)
  IN h3

OnPubrel(o, h, s1, e) ==
  LET c == h.on[e.k]
      inb == Get(h.inb, c, <<>>)
      comp == SelectSeq(Outs(s1, e.k), LAMBDA x : x.p = "PUBCOMP")
      h1 == Flag(h, Len(comp) = 1 /\ comp[1].id = e.id, "B02: PUBREL not answered by PUBCOMP")
      h2 == [h1 EXCEPT !.inb = Put(@, c, Del(inb, e.id))]
  IN IF e.id \in DOMAIN inb /\ o.pubrel THEN Route(o, h2, s1, inb[e.id]) ELSE h2

OnSubscribe(h, s1, e) ==
  LET c == h.on[e.k]
      ok == e.subs # <<>> /\ \A i \in 1..Len(e.subs) : Refused(e.subs[i]) \/ ValidSub(e.subs[i])
      ack == SelectSeq(Outs(s1, e.k), LAMBDA x : x.p = "SUBACK")
      key(u) == <<u.c, u.share, u.f>>
      Granted1(i) == ack[1].rc[i]
      good == {i \in 1..Len(e.subs) : ack # <<>> /\ Granted1(i) < 128}
      lastof(i) == \A j \in good : (e.subs[j].f = e.subs[i].f /\ e.subs[j].share = e.subs[i].share) => j <= i
      new == {[c |-> c, share |-> e.subs[i].share, f |-> e.subs[i].f, q |-> Granted1(i), nl |-> e.subs[i].nl /\ e.ver = 5,
               rap |-> e.subs[i].rap /\ e.ver = 5, sid |-> IF e.ver = 5 THEN e.sid ELSE 0] : i \in {j \in good : lastof(j)}}
      h1 == Flag(h, ok = (e.k \notin s1.cl), "B24: filter")
      h2 == Flag(h1, ok => (Len(ack) = 1 /\ ack[1].id = e.id /\ Len(ack[1].rc) = Len(e.subs)
                            /\ \A i \in 1..Len(e.subs) : ack[1].rc[i] \in {128} \cup 0..e.subs[i].q), "B12: SUBACK")
      kept == {u \in h.sub : ~\E n \in new : key(n) = key(u)}
      \* retained messages: each wanted one, for each filter that wants it
      had(i) == \/ \E u \in h.sub : u.c = c /\ u.share = "" /\ u.f = e.subs[i].f
                \/ \E j \in good : j < i /\ e.subs[j].f = e.subs[i].f /\ e.subs[j].share = ""
      want(i) == /\ i \in good /\ e.subs[i].share = ""
                 /\ (e.ver = 4 \/ e.subs[i].rh = 0 \/ (e.subs[i].rh = 1 /\ ~had(i)))
      T(i) == {t \in DOMAIN h.ret : Matches(e.subs[i].f, t)}
      sent == SelectSeq(Outs(s1, e.k), LAMBDA x : IsPub(x) /\ x.r = 1)
      waits == h.cl[c].mps # NOLIM \/ Len(Get(h.open, c, <<>>)) + Cardinality({<<i, t>> \in (1..Len(e.subs)) \X DOMAIN h.ret : want(i) /\ t \in T(i)}) > h.cl[c].rmax
               \/ \E t \in DOMAIN h.ret : h.msg[h.ret[t]].exp >= 0
      h3 == Flag(h2, (ok /\ ~waits) =>
               /\ Len(sent) = Cardinality({<<i, t>> \in (1..Len(e.subs)) \X DOMAIN h.ret : want(i) /\ t \in T(i)})
               /\ \A j \in 1..Len(sent) : \E i \in 1..Len(e.subs) : want(i) /\ sent[j].t \in T(i) /\ sent[j].pay = h.ret[sent[j].t]
                                           /\ sent[j].q = Min2(Granted1(i), h.msg[sent[j].pay].q), "B11: retained messages for a new subscription")
  IN IF ok THEN [h3 EXCEPT !.sub = kept \cup new] ELSE h3

OnUnsubscribe(h, s1, e) ==
  LET c == h.on[e.k]
      named(u) == \E i \in 1..Len(e.subs) : u.c = c /\ u.share = e.subs[i].share /\ u.f = e.subs[i].f
      ack == SelectSeq(Outs(s1, e.k), LAMBDA x : x.p = "UNSUBACK")
      h1 == Flag(h, e.k \notin s1.cl => Len(ack) = 1 /\ ack[1].id = e.id, "B12: UNSUBACK")
  IN IF e.k \in s1.cl THEN h1 ELSE [h1 EXCEPT !.sub = {u \in @ : ~named(u)}]

\* everything unfinished (up to the new receive maximum) was sent again, in order, before anything new
ResentOk(h, c, q, exact) ==
  LET op == Get(h.open, c, <<>>)
      old == SelectSeq(q, LAMBDA x : (x.p = "PUBREL" /\ ~x.opt) \/ (IsPub(x) /\ x.q > 0 /\ x.d = 1))
      ids == [i \in 1..Len(old) |-> old[i].id]
      want == [i \in 1..Len(op) |-> op[i].id]
  IN /\ \A i \in 1..Len(old) : \E j \in 1..Len(op) : op[j].id = old[i].id /\ (op[j].st = "COMP") = (old[i].p = "PUBREL")
        \* all of them; the PUBLISHes in their order, and the PUBRELs in theirs
     /\ exact => /\ {ids[i] : i \in 1..Len(ids)} = {want[i] : i \in 1..Len(want)} /\ Len(ids) = Len(want)
                 /\ \A i, j \in 1..Len(old) : (i < j /\ old[i].p = old[j].p) => OpenPos(op, old[i].id) < OpenPos(op, old[j].id)
     /\ exact => \A i \in 1..Len(old) : \A j \in 1..Len(q) : (IsPub(q[j]) /\ q[j].d = 0 /\ q[j].q > 0) =>
                    \E n \in 1..(j-1) : q[n] = old[i]

OnConnect(o, h, s1, e) ==
  LET c0 == IF e.cid = "" THEN e.acid ELSE e.cid
      q  == Outs(s1, e.k)
      accepted == q # <<>> /\ q[1].p = "CONNACK" /\ q[1].rc = {0}
      second == e.k \in DOMAIN h.on
      \* the older connection of the same client ends first
      old == IF Connected(h, c0) THEN ConnOf(h, c0) ELSE 0
      h1 == IF second THEN Flag(End(o, h, s1, e.k, TRUE), e.k \in s1.cl, "B24: second CONNECT")
            ELSE IF accepted /\ old # 0
            THEN Flag(End(o, h, s1, old, TRUE), old \in s1.cl /\ (h.cl[c0].ver = 5 =>
                      \E i \in 1..Len(Outs(s1, old)) : s1.out[old][i].p = "DISCONNECT" /\ s1.out[old][i].rc = {142}), "B17: takeover")
            ELSE h
      live == c0 \in DOMAIN h1.cl /\ ~Over(h1, c0)
      sp == IF live /\ ~e.clean THEN 1 ELSE 0
      h2 == Flag(h1, accepted => q[1].sp = sp, "B07/B08: session present")
      \* a delayed will of a session that ends now
      pend == c0 \in DOMAIN h2.cl /\ h2.cl[c0].wdue >= 0
      h3 == IF ~accepted \/ second THEN h2
            ELSE IF sp = 0
            THEN (IF pend THEN LET w == h2.cl[c0].will
                                   g == [h2 EXCEPT !.sub = {u \in @ : u.c # c0}]
                               IN NoSession(Route(o, g, s1, WillPub(w, c0)), c0)
                  ELSE IF c0 \in DOMAIN h2.cl \/ e.clean THEN NoSession(h2, c0)
                  ELSE h2)   \* (after a restart there are subscriptions without a session)
            ELSE h2
      h4 == Flag(h3, (accepted /\ sp = 1 /\ ~second) =>
                 ResentOk(h3, c0, q, e.mps = NOLIM /\ Len(Get(h3.open, c0, <<>>)) <= e.rmax
                                     /\ \A j \in 1..Len(Get(h3.open, c0, <<>>)) : h3.msg[h3.open[c0][j].pay].exp = -1), "B04: resend")
      z == [ver |-> e.ver, exp |-> IF e.ver = 5 THEN e.exp ELSE IF e.clean THEN 0 ELSE NEVER, end |-> -1, rmax |-> e.rmax, mps |-> e.mps,
            ka |-> IF e.ver = 5 /\ e.ka > o.ska THEN o.ska ELSE e.ka, heard |-> h.now, will |-> e.will,
            wd |-> IF e.will.on THEN (IF e.exp = NEVER THEN e.will.delay ELSE Min2(e.will.delay, e.exp)) ELSE 0, wdue |-> -1]
  IN IF ~accepted \/ second THEN h4
     ELSE [h4 EXCEPT !.on = Put(@, e.k, c0), !.cl = Put(@, c0, z), !.due = Put(@, c0, Get(@, c0, <<>>)), !.fst = Put(@, c0, Get(@, c0, <<>>))]

OnTick1(o, h, s1) == \* one second
  LET t == h.now + 1
      h1 == [h EXCEPT !.now = t]
      due == {c \in DOMAIN h1.cl : h1.cl[c].wdue >= 0 /\ t >= h1.cl[c].wdue}
      RECURSIVE W(_, _)
      W(g, C) == IF C = {} THEN g
                 ELSE LET c == CHOOSE x \in C : TRUE
                          w == g.cl[c].will
                      IN W([Route(o, g, s1, WillPub(w, c)) EXCEPT !.cl[c].will = NoWill, !.cl[c].wdue = -1], C \ {c})
      h2 == W(h1, due)
      RECURSIVE X(_, _)
      X(g, C) == IF C = {} THEN g ELSE LET c == CHOOSE x \in C : TRUE IN X(Finish1(g, c), C \ {c})
      h3 == X(h2, DOMAIN h2.cl)
      silent == {k \in DOMAIN h3.on : h3.cl[h3.on[k]].ka > 0 /\ 2 * (t - h3.cl[h3.on[k]].heard) > 3 * h3.cl[h3.on[k]].ka}
      h4 == Flag(h3, s1.cl = silent, "B23: keep alive")
  IN EndAll(o, h4, s1, silent)

Heard1(h, k) == IF k \in DOMAIN h.on THEN [h EXCEPT !.cl[h.on[k]].heard = h.now] ELSE h

\* what the HTTP interface shows is what the clients have done
OnHttp(h, s1, e) ==
  LET q == Outs(s1, e.k)
      x == q[1]
      V3 == {c \in DOMAIN h.cl : h.cl[c].ver = 4}
      ok == /\ Len(q) = 1 /\ DOMAIN s1.out = {e.k} /\ s1.cl = {}
            /\ CASE e.pay = "retained" -> /\ {y[1] : y \in x.all} = {t \in DOMAIN h.ret : ~IsDollar(t)}
                                          /\ \A y \in x.all : h.ret[y[1]] = y[2]
                 [] e.pay = "subscriptions" -> {<<y[1], y[2], y[3]>> : y \in x.all} = {<<u.c, u.share, u.f>> : u \in {v \in h.sub : ~IsDollar(v.f)}}
                 [] e.pay = "clients" -> {<<y[1], y[2]>> : y \in x.all} = {<<c, Connected(h, c)>> : c \in V3}
                 [] e.pay = "client" /\ e.cid \in V3 -> {<<y[1], y[2]>> : y \in x.all} = {<<e.cid, Connected(h, e.cid)>>}
                 [] OTHER -> x.rc = {404}
  IN Flag(h, ok, "H01: not what the clients have done")

HStep(o, h, e, s1) ==
  LET k == e.k
      known == k \in DOMAIN h.on
      c == IF known THEN h.on[k] ELSE ""
      a == \* the client's input
        CASE e.e = "CONNECT" -> OnConnect(o, h, s1, e)
          [] e.e = "TICK"    -> OnTick1(o, h, s1)
          [] e.e = "REINIT"  -> [H0 EXCEPT !.n = h.n, !.now = h.now, !.msg = h.msg, !.bad = h.bad]
          [] e.e = "RESTART" -> LET keep == {u \in h.sub : u.c \notin DOMAIN h.cl \/ h.cl[u.c].end >= 0 \/ h.cl[u.c].exp # 0}
                                IN [H0 EXCEPT !.n = h.n, !.now = h.now, !.msg = h.msg, !.bad = h.bad,
                                              !.sub = IF o.pers THEN keep ELSE {}, !.ret = IF o.pers THEN h.ret ELSE <<>>]
          [] e.e = "SNPUB"   -> Route(o, h, s1, [pay |-> e.pay, t |-> e.t, q |-> 0, r |-> e.r, pr |-> "", exp |-> -1, from |-> ""])
          [] e.e \in {"SNCONN"} -> h
          [] e.e = "HTTP"    -> OnHttp(h, s1, e)
          [] ~known          -> Flag(h, k \in s1.cl, "B25: packet before CONNECT")
          [] e.e = "DROP"    -> End(o, h, s1, k, TRUE)
          [] e.e = "BAD"     -> Flag(End(o, h, s1, k, TRUE), s1.cl = {k}, "B24: malformed packet")
          [] e.e = "DISCONNECT" ->
               IF h.cl[c].ver = 5 /\ e.exp > 0 /\ h.cl[c].exp = 0 THEN End(o, h, s1, k, TRUE)
               ELSE LET x == IF h.cl[c].ver = 5 /\ e.exp # -1 THEN e.exp ELSE h.cl[c].exp
                    IN End(o, [h EXCEPT !.cl[c].exp = x, !.cl[c].wd = IF x = NEVER THEN @ ELSE Min2(@, x)], s1, k, h.cl[c].ver = 5 /\ e.rc # 0)
          [] e.e = "PUBLISH" -> OnPublish(o, h, s1, e)
          [] e.e = "PUBREL"  -> OnPubrel(o, h, s1, e)
          [] e.e = "SUBSCRIBE" -> IF k \in s1.cl THEN End(o, OnSubscribe(h, s1, e), s1, k, TRUE) ELSE OnSubscribe(h, s1, e)
          [] e.e = "UNSUBSCRIBE" -> IF k \in s1.cl THEN End(o, OnUnsubscribe(h, s1, e), s1, k, TRUE) ELSE OnUnsubscribe(h, s1, e)
          [] e.e \in {"PUBACK", "PUBREC", "PUBCOMP"} -> AckOf(h, c, e)
          [] e.e = "PINGREQ" -> Flag(h, \E i \in 1..Len(Outs(s1, k)) : s1.out[k][i].p = "PINGRESP", "B25: PINGREQ")
      w == \* wills appear only when due
        IF e.e \in {"TICK", "CONNECT"} THEN a
        ELSE IF known /\ k \in s1.cl /\ ~(e.e = "DISCONNECT" /\ (h.cl[c].ver = 4 \/ e.rc = 0) /\ ~(h.cl[c].ver = 5 /\ e.exp > 0 /\ h.cl[c].exp = 0))
             THEN [a EXCEPT !.bad = @ \cup WillsOnly([h EXCEPT !.msg = a.msg], s1, {c}).bad]
             ELSE [a EXCEPT !.bad = @ \cup WillsOnly([h EXCEPT !.msg = a.msg], s1, {}).bad]
      v == Flag(w, e.e \notin {"TICK", "REINIT", "RESTART"} =>
              s1.cl \subseteq ({k} \cup {j \in DOMAIN h.on : e.e = "CONNECT" /\ h.on[j] = e.cid}), "B24: another connection was closed")
      u == SentKs(v, s1, AllKs(s1))
  IN IF e.e \in {"TICK", "RESTART", "REINIT", "SNPUB", "SNCONN", "HTTP"} THEN u ELSE Heard1(u, k)

=============================================================================
