------------------------------ MODULE MCBroker ------------------------------
(***************************************************************************)
(* The broker in an environment that may do anything within the budget of  *)
(* a scope (MCScopes).  Checked exhaustively for h.bad = {} and the state  *)
(* invariants below; in simulation mode it writes the histories which the  *)
(* conformance check replays into the real brokers.                        *)
(***************************************************************************)
EXTENDS Monitor, MCScopes, Json

CONSTANTS Scope, Extra, Sim, Depth

VARIABLES s, h, b, hist

P == Deeper(ScopeOf(Scope), Extra)
vars == <<s, h, b, hist>>

E0 == [e |-> "", k |-> 0, ver |-> 0, cid |-> "", acid |-> "", clean |-> FALSE, ka |-> 0, exp |-> -1, rmax |-> 65535,
       mps |-> NOLIM, tamax |-> 0, will |-> NoWill, id |-> 0, subs |-> <<>>, sid |-> 0, t |-> <<>>, al |-> -1, pay |-> "",
       q |-> 0, d |-> 0, r |-> 0, pr |-> "", prl |-> 0, len |-> 0, rc |-> 0, want |-> ""]

\* a value of the scope completed to an event
Ev(kind, k, x) == x @@ [e |-> kind, k |-> k] @@ E0

------------------------------------------------------------------------------
(* Packet ids: the lowest one not in use (any choice is allowed by the specification; see TraceBroker) *)
UsedIds(z) == {z.infl[j].id : j \in 1..Len(z.infl)} \cup {z.queue[j].held : j \in 1..Len(z.queue)}
OwnerOf(st, sym) == CHOOSE c \in DOMAIN st.sess : \E j \in 1..Len(st.sess[c].infl) : st.sess[c].infl[j].id = sym
HasOwner(st, sym) == \E c \in DOMAIN st.sess : \E j \in 1..Len(st.sess[c].infl) : st.sess[c].infl[j].id = sym

RECURSIVE Bind(_, _)
Bind(st, n) ==
  IF n > st.nid THEN st
  ELSE LET sym == -n IN
    IF ~HasOwner(st, sym) THEN Bind(st, n + 1)
    ELSE LET c == OwnerOf(st, sym)
             z == st.sess[c]
             id == CHOOSE i \in 1..50 : i \notin UsedIds(z) /\ \A j \in 1..(i-1) : j \in UsedIds(z)
             st1 == [st EXCEPT !.sess[c].infl = [j \in 1..Len(@) |-> IF @[j].id = sym THEN [@[j] EXCEPT !.id = id] ELSE @[j]],
                               !.out = [k \in DOMAIN @ |-> [j \in 1..Len(@[k]) |->
                                          IF @[k][j].id = sym THEN [@[k][j] EXCEPT !.id = id] ELSE @[k][j]]]]
         IN Bind(st1, n + 1)

\* ids sent on connections that ended within the same step have no owner: give them one that is free
Unbound(st) == \E k \in DOMAIN st.out : \E j \in 1..Len(st.out[k]) : st.out[k][j].id < 0

------------------------------------------------------------------------------
(* What the environment may do *)

Has(kind) == b[kind] > 0
NextK == Cardinality(DOMAIN s.mpsk) + 1
Fresh == "m" \o ToString(h.n + b.uniq)
Conns == DOMAIN s.cn
Unfinished(k) == Get(h.inb, s.cn[k], <<>>)
CidOn(c) == \E k \in Conns : s.cn[k] = c

Connects == {Ev("CONNECT", NextK, [(IF x.cid = "" THEN [acid |-> "A" \o ToString(NextK)] ELSE <<>>) @@ x EXCEPT !.will = IF @.on THEN [@ EXCEPT !.pay = "w" \o ToString(NextK)] ELSE @])
               : x \in {y \in P.connects : P.takeover \/ ~CidOn(y.cid)}}
\* shared subscriptions are for 5.0 clients
OfVersion(k, X) == {x \in X : s.sess[s.cn[k]].ver = 5 \/ \A i \in 1..Len(x.subs) : x.subs[i].share = ""}
Subscribes(k) == {Ev("SUBSCRIBE", k, x @@ [id |-> 7, ver |-> s.sess[s.cn[k]].ver]) : x \in OfVersion(k, P.subs)}
Unsubscribes(k) == {Ev("UNSUBSCRIBE", k, x @@ [id |-> 8, ver |-> s.sess[s.cn[k]].ver]) : x \in OfVersion(k, P.unsubs)}

Pubs0(k) ==
  UNION { LET y == IF "pay" \in DOMAIN x THEN x ELSE x @@ [pay |-> Fresh]
              z == IF s.sess[s.cn[k]].ver = 5 THEN y ELSE ([pr |-> "", prl |-> 0, exp |-> -1, al |-> -1] @@ y)
              lenof == IF "len" \in DOMAIN x THEN x.len ELSE 20
          IN IF z.q = 0 THEN {Ev("PUBLISH", k, z @@ [len |-> lenof])}
             ELSE {Ev("PUBLISH", k, z @@ [id |-> i, len |-> lenof]) : i \in {j \in P.ids : z.q = 1 \/ j \notin DOMAIN Unfinished(k)}}
        : x \in {y \in P.pubs : s.sess[s.cn[k]].ver = 5 \/ "al" \notin DOMAIN y} }
Repeats(k) == {LET m == Unfinished(k)[i] IN
               Ev("PUBLISH", k, [t |-> m.t, q |-> 2, id |-> i, pay |-> m.pay, d |-> 1, r |-> m.r, pr |-> m.pr, exp |-> m.exp, len |-> 20])
                 : i \in DOMAIN Unfinished(k)}
Pubrels(k) == {Ev("PUBREL", k, [id |-> i]) : i \in IF P.wrong THEN P.ids ELSE DOMAIN Unfinished(k)}

Acks(k) ==
  LET q == Get(h.open, s.cn[k], <<>>)
      right(x) == IF x.st = "ACK" THEN "PUBACK" ELSE IF x.st = "REC" THEN "PUBREC" ELSE "PUBCOMP"
      v5 == s.sess[s.cn[k]].ver = 5
  IN UNION {{Ev(right(q[i]), k, [id |-> q[i].id, rc |-> c, want |-> q[i].pay])
        : c \in IF v5 /\ q[i].st # "COMP" THEN P.rcs ELSE {0}} : i \in 1..Len(q)}
WrongAcks(k) ==
  LET q == Get(h.open, s.cn[k], <<>>)
  IN {Ev(t, k, [id |-> q[i].id, want |-> q[i].pay]) : t \in {"PUBACK", "PUBREC", "PUBCOMP"}, i \in 1..Len(q)}
     \cup {Ev(t, k, [id |-> 9]) : t \in {"PUBACK", "PUBREC", "PUBCOMP"}}

Environment ==
  LET on(kind, X) == IF Has(kind) THEN {<<kind, x>> : x \in X} ELSE {}
  IN on("connect", Connects)
     \cup UNION { on("sub", Subscribes(k)) \cup on("unsub", Unsubscribes(k))
                  \cup on("pub", Pubs0(k)) \cup on("rep", Repeats(k))
                  \cup (IF Has("pub") \/ b.rel > 0 THEN {<<"rel", x>> : x \in Pubrels(k)} ELSE {})
                  \cup {<<"ack", x>> : x \in Acks(k)}
                  \cup (IF P.wrong THEN on("wrong", WrongAcks(k)) ELSE {})
                  \cup on("drop", {Ev("DROP", k, <<>>)})
                  \cup on("disc", {Ev("DISCONNECT", k, IF s.sess[s.cn[k]].ver = 5 THEN x ELSE [rc |-> 0, exp |-> -1]) : x \in P.discs})
                  \cup on("bad", {Ev("BAD", k, <<>>)}) \cup on("ping", {Ev("PINGREQ", k, <<>>)})
                : k \in Conns }
     \cup on("tick", {Ev("TICK", 0, [d |-> 1])})
     \cup on("sn", {Ev("SNPUB", 901, x @@ [pay |-> Fresh, q |-> 3]) : x \in P.sn})
     \cup on("http", {Ev("HTTP", 950, x) : x \in P.http})
     \cup on("restart", {Ev("RESTART", 0, <<>>)}) \cup on("reinit", {Ev("REINIT", 0, <<>>)})

Spend(kind) == IF kind \in {"ack"} \/ Sim THEN b ELSE IF kind = "rel" THEN [b EXCEPT !.rel = IF b.rel > 0 THEN @ - 1 ELSE 0]
               ELSE [b EXCEPT ![kind] = @ - 1]

------------------------------------------------------------------------------
Init ==
  /\ s = Init0(P.opt) /\ h = H0 /\ hist = <<>>
  /\ b = P.budget

Do(x) ==
  LET e == x[2] IN
  /\ \E st \in Step(s, e) :   \* (outside simulation, hist shows the last input in counterexamples)
       LET s1 == Bind(st, 1) IN
       /\ s' = Clear(s1)
       /\ h' = HStep(P.opt, h, e, s1)
  /\ b' = [Spend(x[1]) EXCEPT !.uniq = IF e.e \in {"PUBLISH", "SNPUB"} /\ e.q = 2 /\ P.opt.pubrel THEN @ + 1 ELSE @]
  /\ hist' = IF Sim THEN Append(hist, e) ELSE <<e, h'.bad>>

\* in simulation, choose the kind first, so that kinds with many variants do not dominate
Next ==
  IF ~Sim THEN \E x \in Environment : Do(x)
  ELSE LET E == Environment
           kinds == {x[1] : x \in E}
           w == P.weights
           bag == LET Q == SetToSeq(kinds)
                  IN FlattenSeq([i \in 1..Len(Q) |-> [j \in 1..(IF Q[i] \in DOMAIN w THEN w[Q[i]] ELSE 2) |-> Q[i]]])
       IN \E n \in {RandomElement(1..Len(bag))} :
          \E x \in {RandomElement({y \in E : y[1] = bag[n]})} : Do(x)

Spec == Init /\ [][Next]_vars

View == <<s, [h EXCEPT !.now = 0], b>>

------------------------------------------------------------------------------
(* Invariants *)

Good == h.bad = {}

\* what the broker holds is what is owed and not yet sent; nothing is lost, doubled or reordered (B01, B02, B05, B09, B10)
Exact == P.exact =>
  \A c \in DOMAIN s.sess :
    LET wait == SelectSeq(s.sess[c].queue, LAMBDA y : y.held = 0 /\ y.m.q > 0)
    IN Get(h.fst, c, <<>>) \o [i \in 1..Len(wait) |-> <<wait[i].m.pay, wait[i].m.q>>] = Get(h.due, c, <<>>)

\* unfinished messages as the client sees them are those the broker holds (B03, B04)
InFlight == P.exact =>
  \A c \in DOMAIN s.sess : {h.open[c][i].id : i \in DOMAIN Get(h.open, c, <<>>)} = UsedIds(s.sess[c]) \ {0}

\* never idle: a message waits only if the client is away or its window is full (B09, B10)
NotIdle == \A c \in DOMAIN s.sess : LET z == s.sess[c] IN (z.conn # 0 /\ z.queue # <<>>) => Len(z.infl) >= z.rmax

Ids == \A c \in DOMAIN s.sess :
  LET q == [j \in 1..Len(s.sess[c].infl) |-> s.sess[c].infl[j].id]
           \o (LET g == SelectSeq(s.sess[c].queue, LAMBDA y : y.held # 0) IN [j \in 1..Len(g) |-> g[j].held])
  IN \A i, j \in 1..Len(q) : q[i] = q[j] => i = j

Connections == /\ \A k \in DOMAIN s.cn : s.cn[k] \in DOMAIN s.sess /\ s.sess[s.cn[k]].conn = k
               /\ \A c \in DOMAIN s.sess : s.sess[c].conn # 0 => s.sess[c].conn \in DOMAIN s.cn
               /\ DOMAIN s.cn = DOMAIN h.on

Window == \A c \in DOMAIN s.sess : /\ s.sess[c].conn # 0 => Cardinality({i \in 1..Len(s.sess[c].infl) : s.sess[c].infl[i].st # "COMP"}) <= s.sess[c].rmax
                                   /\ s.sess[c].ver = 5 => Cardinality(DOMAIN s.sess[c].inb) <= P.opt.rm

SubsLive == P.budget.restart = 0 => \A u \in s.subs : u.cid \in DOMAIN s.sess
SubsSame == {<<u.cid, u.share, u.f, u.q>> : u \in s.subs} = {<<u.c, u.share, u.f, u.q>> : u \in h.sub}
RetSame  == DOMAIN s.ret = DOMAIN h.ret /\ \A t \in DOMAIN s.ret : s.ret[t].pay = h.ret[t]

Bound == ~Unbound(s)

\* simulation: write the history
Written == (Sim /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson([opt |-> P.opt, events |-> hist])>>)

Broken == Good /\ Exact /\ InFlight /\ NotIdle /\ Ids /\ Connections /\ Window /\ SubsLive /\ SubsSame /\ RetSame
=============================================================================
