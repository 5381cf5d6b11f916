----------------------------- MODULE TraceProxy -----------------------------
(***************************************************************************)
(* Recorded histories of the real proxies.  An event: OPEN, C / B (the     *)
(* client / the broker sends bytes), CCLOSE / BCLOSE, BREAK, REFUSED (a    *)
(* connection while there is no broker).  A step has, per connection, what *)
(* then arrived on either side and whether the end was seen; the reports.  *)
(***************************************************************************)
EXTENDS Proxy, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, i, c, dead
vars == <<tr, i, c, dead>>
T == Traces[tr]
topt == [reports |-> T.reports]

Fresh(x) == [k \in DOMAIN x |-> [x[k] EXCEPT !.up = <<>>, !.down = <<>>, !.rep = <<>>]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Event(x, e) ==
  IF e.e = "OPEN" THEN Put(x, e.k, Conn0)
  ELSE IF e.e = "REFUSED" THEN Put(x, e.k, [Conn0 EXCEPT !.over = TRUE, !.beof = TRUE])
  ELSE IF e.e = "BREAK" THEN [k \in DOMAIN x |-> [x[k] EXCEPT !.over = TRUE]]
  ELSE IF x[e.k].over THEN x
  ELSE IF e.e = "C" THEN [x EXCEPT ![e.k].cq = @ \o e.b]
  ELSE IF e.e = "B" THEN [x EXCEPT ![e.k].bq = @ \o e.b]
  ELSE IF e.e = "CCLOSE" THEN [x EXCEPT ![e.k].ceof = TRUE]
  ELSE [x EXCEPT ![e.k].beof = TRUE]

Starts(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

NoObs == [up |-> <<>>, down |-> <<>>, cend |-> FALSE, bend |-> FALSE]
Obs(st, k) == IF \E j \in 1..Len(st.obs) : st.obs[j].k = k
              THEN st.obs[CHOOSE j \in 1..Len(st.obs) : st.obs[j].k = k] ELSE NoObs


\* the outcomes for connection k that agree with what was seen
Match(x, k, st) ==
  LET o == Obs(st, k)
  IN IF k \in DOMAIN c /\ c[k].over
     THEN IF o.up = <<>> /\ o.down = <<>> /\ ~o.cend /\ ~o.bend THEN {x[k]} ELSE {}
     ELSE
     {u \in Quiet({x[k]}, topt) :
        \* an end that is closed sees nothing; closing with bytes unread is a reset, after which the last packets may be lost
        /\ u.up = o.up \/ u.beof \/ (u.over /\ u.bq # <<>> /\ Starts(o.up, u.up))
        /\ u.down = o.down \/ u.ceof \/ (u.over /\ u.cq # <<>> /\ Starts(o.down, u.down))
        /\ o.cend = (u.over /\ ~u.ceof)
        /\ o.bend = (u.over /\ ~u.beof)
        \* a step concerns one connection: the reports are about that one
        /\ T.reports =>
             LET r == IF k = st.ev.k THEN st.rep ELSE <<>>
             IN Len(r) = Len(u.rep) /\ \A j \in 1..Len(r) : r[j].dir = u.rep[j][1] /\ r[j].id = u.rep[j][2] /\ r[j].b = u.rep[j][3]}

RECURSIVE Choices(_, _)
Choices(M, ks) == IF ks = {} THEN {<<>>}
                  ELSE LET k == CHOOSE y \in ks : TRUE
                       IN {Put(f, k, u) : f \in Choices(M, ks \ {k}), u \in M[k]}

Init == tr \in 1..Len(Traces) /\ i = 1 /\ c = <<>> /\ dead = FALSE

Next ==
  /\ ~dead /\ i <= Len(T.steps) /\ tr' = tr
  /\ LET st == T.steps[i]
         x == Event(Fresh(c), st.ev)
         M == [k \in DOMAIN x |-> Match(x, k, st)]
     IN IF \E k \in DOMAIN x : M[k] = {}
        THEN /\ PrintT(<<"STUCK", T.name, i, [k \in {y \in DOMAIN x : M[y] = {}} |-> Quiet({x[k]}, topt)]>>)
             /\ dead' = TRUE /\ UNCHANGED <<i, c>>
        ELSE /\ c' \in Choices(M, DOMAIN x)
             /\ i' = i + 1 /\ dead' = FALSE
             /\ (i = Len(T.steps)) => PrintT(<<"ACCEPT", T.name>>)

Spec == Init /\ [][Next]_vars
=============================================================================
