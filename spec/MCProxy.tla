------------------------------ MODULE MCProxy -------------------------------
(***************************************************************************)
(* Two connections through the proxy, whose ends send packets, in pieces,  *)
(* and close; all connections can be broken.                               *)
(***************************************************************************)
EXTENDS Proxy, TLC, Json, FiniteSets

CONSTANTS Reports, Conns, Budget, Sim

opt == [reports |-> Reports]

\* CONNECT with client id "a"; PUBLISH; PINGREQ; the packet that ends the connection
Connect == <<16, 13, 0, 4, 77, 81, 84, 84, 4, 2, 0, 0, 0, 1, 97>>
Publish == <<48, 3, 0, 1, 120>>
Ping    == <<192, 0>>
Stop    == <<48, 24, 0, 13>> \o StopTopic \o StopData
FromC   == {Connect, Publish, Ping, Stop}
FromB   == {<<32, 2, 0, 0>>, <<208, 0>>}

VARIABLES c,        \* connection -> record, as in Proxy
          csent, bsent,     \* ghosts: everything the ends sent
          n, hist
vars == <<c, csent, bsent, n, hist>>

Init == /\ c = [k \in Conns |-> Conn0] /\ csent = [k \in Conns |-> <<>>] /\ bsent = [k \in Conns |-> <<>>]
        /\ n = 0 /\ hist = <<>>

Note(e) == hist' = IF Sim THEN Append(hist, e) ELSE hist
Spend == n < Budget /\ n' = n + 1

\* the end of what was sent so far that is not a whole packet
PartOf(q) == Split(q).rest

ClientSends(k) ==
  /\ Spend /\ ~c[k].ceof /\ ~c[k].over
  /\ \E p \in FromC :
       LET have == PartOf(csent[k])
       IN /\ (csent[k] = <<>>) => p = Connect
          /\ IF have # <<>>
             THEN /\ Len(p) > Len(have)
                  /\ Prefix(p, Len(have)) = have          \* the rest of the packet begun
                  /\ c' = [c EXCEPT ![k].cq = @ \o Rest(p, Len(have))]
                  /\ csent' = [csent EXCEPT ![k] = @ \o Rest(p, Len(have))]
                  /\ Note([e |-> "C", k |-> k, b |-> Rest(p, Len(have))])
             ELSE \E m \in {1, 3, Len(p)} :
                  /\ m <= Len(p)
                  /\ c' = [c EXCEPT ![k].cq = @ \o Prefix(p, m)]
                  /\ csent' = [csent EXCEPT ![k] = @ \o Prefix(p, m)]
                  /\ Note([e |-> "C", k |-> k, b |-> Prefix(p, m)])
  /\ UNCHANGED bsent

BrokerSends(k) ==
  /\ Spend /\ ~c[k].beof /\ ~c[k].over /\ csent[k] # <<>>
  /\ \E p \in FromB :
       LET have == PartOf(bsent[k])
       IN IF have # <<>>
          THEN /\ Len(p) > Len(have) /\ Prefix(p, Len(have)) = have
               /\ c' = [c EXCEPT ![k].bq = @ \o Rest(p, Len(have))]
               /\ bsent' = [bsent EXCEPT ![k] = @ \o Rest(p, Len(have))]
               /\ Note([e |-> "B", k |-> k, b |-> Rest(p, Len(have))])
          ELSE \E m \in {1, Len(p)} :
               /\ c' = [c EXCEPT ![k].bq = @ \o Prefix(p, m)]
               /\ bsent' = [bsent EXCEPT ![k] = @ \o Prefix(p, m)]
               /\ Note([e |-> "B", k |-> k, b |-> Prefix(p, m)])
  /\ UNCHANGED csent

Closes(k) ==
  /\ Spend /\ ~c[k].over /\ ~c[k].ceof /\ ~c[k].beof
  /\ \E who \in {"CCLOSE", "BCLOSE"} :
       /\ c' = [c EXCEPT ![k].ceof = (who = "CCLOSE"), ![k].beof = (who = "BCLOSE")]
       /\ Note([e |-> who, k |-> k, b |-> <<>>])
  /\ UNCHANGED <<csent, bsent>>

Break ==
  /\ Spend /\ ~Reports
  /\ c' = [k \in Conns |-> [c[k] EXCEPT !.over = TRUE]]
  /\ Note([e |-> "BREAK", k |-> 0, b |-> <<>>])
  /\ UNCHANGED <<csent, bsent>>

Proxies(k) == /\ \E u \in Work(c[k], opt) : c' = [c EXCEPT ![k] = u]
              /\ UNCHANGED <<csent, bsent, n, hist>>

Settled == Sim => \A k \in Conns : Work(c[k], opt) = {}

Next == \/ \E k \in Conns : Proxies(k)
        \/ Settled /\ (Break \/ \E k \in Conns : ClientSends(k) \/ BrokerSends(k) \/ Closes(k))

Spec == Init /\ [][Next]_vars /\ \A k \in Conns : WF_vars(Proxies(k))

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* nothing altered, nothing made up, nothing out of order, whole packets only
Faithful == \A k \in Conns : /\ IsPrefix(c[k].up, csent[k]) /\ IsPrefix(c[k].down, bsent[k])
                             /\ Split(c[k].up).rest = <<>> /\ Split(c[k].down).rest = <<>>
\* nothing lost: while the connection is up, what is not forwarded is still there
NotLost  == \A k \in Conns : ~c[k].over => (c[k].up \o c[k].cq = csent[k] /\ c[k].down \o c[k].bq = bsent[k])
\* what was reported is what was forwarded
RECURSIVE Flat(_, _)
Flat(r, dir) == IF r = <<>> THEN <<>> ELSE (IF r[1][1] = dir THEN r[1][3] ELSE <<>>) \o Flat(Tail(r), dir)
Told     == Reports => \A k \in Conns : Flat(c[k].rep, "C") = c[k].up

\* both ends learn of the end; what the client sent before it closed arrives, unless the broker is in the way
Ends     == \A k \in Conns : (c[k].ceof /\ c[k].stuck # "b") ~> (c[k].over \/ c[k].stuck = "b")
Arrives  == \A k \in Conns : [](c[k].cq # <<>> /\ First1(c[k].cq).kind = "packet" => <>(c[k].over \/ c[k].stuck = "b" \/ First1(c[k].cq).kind # "packet" \/ Len(c[k].up) > 0))
\* the end of one does not touch the other
Apart    == [][\A k \in Conns : (c[k].over /\ ~c'[k].over) = FALSE]_vars

Written == ~(Sim /\ n = Budget /\ (\A k \in Conns : Work(c[k], opt) = {}) /\ ~PrintT(<<"HIST", ToJson(hist)>>))
View == <<c, csent, bsent, n>>
=============================================================================
