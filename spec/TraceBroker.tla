---------------------------- MODULE TraceBroker ----------------------------
(***************************************************************************)
(* Trace validation: is what the real broker sent and closed, step by step *)
(* of a recorded history, a behaviour of Broker?  One initial state per    *)
(* trace; a branch that explains the whole trace prints ACCEPT, one that   *)
(* gets stuck prints STUCK with the step.  A trace is rejected iff no      *)
(* branch accepts it.                                                      *)
(***************************************************************************)
EXTENDS Broker, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, i, s, dead

vars == <<tr, i, s, dead>>

\* bind the packet id chosen in this step (symbolic, negative) to the one observed
BindId(st, c, sym, id) ==
  IF c \in DOMAIN st.sess
  THEN WithSess(st, c, [st.sess[c] EXCEPT !.infl =
          [j \in 1..Len(@) |-> IF @[j].id = sym THEN [@[j] EXCEPT !.id = id] ELSE @[j]]])
  ELSE st

\* the topic of an observed PUBLISH on connection k resolves to t
AliasOk(st, k, t, o) ==
  IF o.al = 0 THEN o.t = t
  ELSE /\ o.al <= Get(st.tak, k, 0)
       /\ IF o.t # <<>> THEN o.t = t
          ELSE k \in DOMAIN st.ao /\ o.al \in DOMAIN st.ao[k] /\ st.ao[k][o.al] = t

NoteAlias(st, k, o) ==
  IF o.al # 0 /\ o.t # <<>> /\ k \in DOMAIN st.ao
  THEN [st EXCEPT !.ao[k] = Put(@, o.al, o.t)] ELSE st

PubOk(st, k, x, o) ==
  /\ AliasOk(st, k, x.t, o)
  /\ o.pay = x.pay /\ o.q = x.q /\ o.d = x.d /\ o.r = x.r /\ o.pr = x.pr /\ o.exp = x.exp /\ o.sids = x.sids
  /\ IF x.q = 0 THEN o.id = 0 ELSE IF x.id > 0 THEN o.id = x.id ELSE o.id \in 1..MAXID

MatchPkt(st, k, x, o) ==
  IF x.p = "HTTP" /\ o.p = "HTTP"
  THEN IF /\ o.rc[1] \in x.rc
          /\ LET S == {o.body[j] : j \in 1..Len(o.body)} IN x.all \subseteq S /\ S \subseteq (x.all \cup x.may) /\ Cardinality(S) = Len(o.body)
       THEN {st} ELSE {}
  ELSE IF x.p # o.p \/ o.len > Get(st.mpsk, k, NOLIM) THEN {}
  ELSE IF x.p = "PUBLISH"
  THEN IF PubOk(st, k, x, o)
       THEN {NoteAlias(IF x.id < 0 THEN BindId(st, x.cid, x.id, o.id) ELSE st, k, o)} ELSE {}
  ELSE IF x.p = "CONNACK"
  THEN IF o.rc[1] \in x.rc /\ o.sp = x.sp /\ o.acid = x.acid /\ o.lim = x.lim THEN {st} ELSE {}
  ELSE IF x.p \in {"SUBACK", "UNSUBACK"}
  THEN IF o.id = x.id /\ o.rc = x.rc THEN {st} ELSE {}
  ELSE IF x.p = "PINGRESP" THEN {st}
  ELSE IF o.id = x.id /\ o.rc[1] \in x.rc THEN {st} ELSE {}

RECURSIVE MatchSeq(_, _, _, _)
MatchSeq(st, k, x, o) ==
  IF x = <<>> THEN (IF o = <<>> THEN {st} ELSE {})
  ELSE (IF x[1].opt THEN MatchSeq(st, k, Tail(x), o) ELSE {})
       \cup (IF o = <<>> THEN {}
             ELSE UNION {MatchSeq(u, k, Tail(x), Tail(o)) : u \in MatchPkt(st, k, x[1], o[1])})

Ids(z) == [j \in 1..Len(z.infl) |-> z.infl[j].id] \o
          (LET h == SelectSeq(z.queue, LAMBDA y : y.held # 0) IN [j \in 1..Len(h) |-> h[j].held])

\* every unfinished message of a client has its own packet id
UniqueIds(st) == \A c \in DOMAIN st.sess :
  LET q == Ids(st.sess[c]) IN Cardinality({q[j] : j \in 1..Len(q)}) = Len(q)

Obs(o, k) == IF \E j \in 1..Len(o) : o[j].k = k
             THEN o[CHOOSE j \in 1..Len(o) : o[j].k = k].pk ELSE <<>>

RECURSIVE MatchConns(_, _, _)
MatchConns(S, ks, o) ==
  IF ks = {} \/ S = {} THEN S
  ELSE LET k == CHOOSE x \in ks : TRUE
       IN MatchConns(UNION {MatchSeq(st, k, Get(st.out, k, <<>>), Obs(o, k)) : st \in S}, ks \ {k}, o)

\* the states that explain the observation ob of a step
Explain(st, ob) ==
  IF st.cl # Range1(ob.cl) THEN {}
  ELSE {u \in MatchConns({st}, DOMAIN st.out \cup {ob.out[j].k : j \in 1..Len(ob.out)}, ob.out) : UniqueIds(u)}

T == Traces[tr]

(* Messages given to a client in one step in an order that is left open: those that appear later
   in the history can only have been given in the order in which they appear first (T.seen has,
   per client, all the PUBLISHes it received, with the step), those that do not come last. *)
SameMsg(x, m) == x.pay = m.pay /\ x.q = m.q /\ x.r = m.r /\ x.sids = m.sids

\* where the n-th message like m appears (0: nowhere)
SeenAt(c, m, n) ==
  LET q == T.seen[c]
      P == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : q[j].i >= i /\ SameMsg(q[j], m))
  IN IF Len(P) < n THEN 0 ELSE P[n]

TraceOrders(st, c, q) ==
  IF Len(q) <= 1 \/ c \notin DOMAIN T.seen THEN PermSeqs(q)
  ELSE LET pos == [j \in 1..Len(q) |-> SeenAt(c, q[j],
                       Cardinality({x \in 1..j : SameMsg(q[x], q[j])})
                     + Cardinality({x \in 1..Len(st.sess[c].queue) : SameMsg(st.sess[c].queue[x].m, q[j])}))]
           yes == SortSeq(SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : pos[j] # 0), LAMBDA a, b : pos[a] < pos[b])
           no  == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : pos[j] = 0)
       IN {[j \in 1..Len(yes) |-> q[yes[j]]] \o [j \in 1..Len(no) |-> q[x[j]]] : x \in PermSeqs(no)}

(* Long stretches recorded in short.  MANY: messages for client cid, each finished before the next, with
   these packet ids.  SPREAD: who was given each of many messages for one group with these members, all
   connected: each gets some. *)
Range0(q) == {q[j] : j \in 1..Len(q)}
Short(st, ev) ==
  IF ev.e = "MANY"
  THEN IF LET used == Range0(Ids(st.sess[ev.cid])) IN \A j \in 1..Len(ev.ids) : ev.ids[j] \in 1..MAXID /\ ev.ids[j] \notin used THEN {st} ELSE {}
  ELSE IF Range0(ev.who) = Range0(ev.members) THEN {st} ELSE {}
Step1(st, ev) == IF ev.e \in {"MANY", "SPREAD"} THEN Short(st, ev) ELSE Step(st, ev)

Next1 == UNION {Explain(st, T.steps[i]) : st \in Step1(s, T.steps[i].ev)}

Init == /\ tr \in 1..Len(Traces)
        /\ i = 1
        /\ s = Init0(Traces[tr].opt)
        /\ dead = FALSE

Next ==
  /\ ~dead
  /\ i <= Len(T.steps)
  /\ tr' = tr
  /\ LET N == {Clear(u) : u \in Next1}
     IN IF N = {}
        THEN /\ PrintT(<<"STUCK", T.name, i, {[out |-> u.out, cl |-> u.cl]   : u \in Step1(s, T.steps[i].ev)}>>)
             /\ dead' = TRUE /\ UNCHANGED <<i, s>>
        ELSE /\ s' \in N
             /\ i' = i + 1
             /\ dead' = FALSE
             /\ (i = Len(T.steps)) => PrintT(<<"ACCEPT", T.name>>)

Spec == Init /\ [][Next]_vars

\* design-level sanity of every state reached while following the implementation
Sane == \A k \in DOMAIN s.cn : s.cn[k] \in DOMAIN s.sess /\ s.sess[s.cn[k]].conn = k
=============================================================================
