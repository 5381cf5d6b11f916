------------------------------- MODULE Proxy --------------------------------
(***************************************************************************)
(* A proxy between MQTT clients and a broker (mqtt/proxy: reports the      *)
(* packets; mqtt/restart/netproxy: can be told to break all connections).  *)
(* One thread per connection forwards packet by packet, in both            *)
(* directions.                                                             *)
(*                                                                         *)
(* A connection: cq, bq   bytes from the client, the broker, not yet read  *)
(*               ceof, beof   the client, the broker has closed            *)
(*               up, down     bytes given to the broker, to the client     *)
(*               stuck  "c"/"b": in the middle of a packet from there      *)
(*               over   closed by the proxy, on both sides                 *)
(*               named, id    the client's id, once there was a CONNECT    *)
(*               rep    reports: <<direction, id, packet>>                 *)
(***************************************************************************)
EXTENDS Frame

Conn0 == [cq |-> <<>>, bq |-> <<>>, ceof |-> FALSE, beof |-> FALSE, up |-> <<>>, down |-> <<>>, stuck |-> "",
          over |-> FALSE, named |-> FALSE, id |-> <<>>, rep |-> <<>>]

\* the first packet in q: [kind: "packet", n] or "none" (empty), "part", "bad"
First1(q) ==
  IF q = <<>> THEN [kind |-> "none", n |-> 0]
  ELSE LET r == RemLen(q, 2, 1, 0)
       IN IF r[1] = -2 THEN [kind |-> "bad", n |-> 0]
          ELSE IF r[1] = -1 \/ Len(q) < 1 + r[2] + r[1] THEN [kind |-> "part", n |-> 0]
          ELSE [kind |-> "packet", n |-> 1 + r[2] + r[1]]

Prefix(q, n) == SubSeq(q, 1, n)
Rest(q, n)   == SubSeq(q, n + 1, Len(q))

U16(b, j) == b[j] * 256 + b[j + 1]

\* where the variable header of packet p starts
VarHead(p) == RemLen(p, 2, 1, 0)[2] + 2

\* the client id in a CONNECT of MQTT 3.1.1: protocol name, level, flags, keep alive come first
ClientId(p) == LET v == VarHead(p) IN SubSeq(p, v + 12, v + 11 + U16(p, v + 10))

Is311(p) == LET v == VarHead(p) IN Len(p) >= v + 11 /\ SubSeq(p, v, v + 6) = <<0, 4, 77, 81, 84, 84, 4>>

\* PUBLISH to this topic with this payload ends the connection (mqtt/proxy); it is not passed on
StopTopic == <<77, 81, 84, 84, 83, 65, 83, 32, 116, 111, 112, 105, 99>>      \* MQTTSAS topic
StopData  == <<84, 69, 82, 77, 73, 78, 65, 84, 69>>                          \* TERMINATE
IsStop(p) ==
  /\ p[1] \div 16 = 3
  /\ LET v == VarHead(p)
         qos == (p[1] \div 2) % 4
     IN /\ Len(p) >= v + 14 /\ U16(p, v) = 13 /\ SubSeq(p, v + 2, v + 14) = StopTopic
        /\ SubSeq(p, v + 15 + (IF qos = 0 THEN 0 ELSE 2), Len(p)) = StopData

Report(c, dir, p, opt) == IF opt.reports /\ c.named THEN [c EXCEPT !.rep = Append(@, <<dir, c.id, p>>)] ELSE c

\* what the proxy does next for connection c: set of successors (opt.reports: the reporting kind)
FromClient(c, opt) ==
  IF c.over \/ c.stuck = "b" THEN {}
  ELSE LET h == First1(c.cq)
       IN IF h.kind = "packet"
          THEN LET p == Prefix(c.cq, h.n)
                   u == [c EXCEPT !.cq = Rest(@, h.n), !.stuck = ""]
                   v == IF p[1] = 16 /\ Is311(p) THEN [u EXCEPT !.named = TRUE, !.id = ClientId(p)] ELSE u
               IN IF opt.reports /\ c.named /\ IsStop(p) THEN {[u EXCEPT !.over = TRUE]}
                  ELSE {[Report(v, "C", p, opt) EXCEPT !.up = @ \o p]}
          ELSE IF h.kind = "bad" THEN {[c EXCEPT !.over = TRUE]}
          ELSE IF c.ceof THEN {[c EXCEPT !.over = TRUE]}
          ELSE IF h.kind = "part" /\ c.stuck = "" THEN {[c EXCEPT !.stuck = "c"]} ELSE {}

FromBroker(c, opt) ==
  IF c.over \/ c.stuck = "c" THEN {}
  ELSE LET h == First1(c.bq)
       IN IF h.kind = "packet"
          THEN LET p == Prefix(c.bq, h.n)
               IN {[Report(c, "S", p, opt) EXCEPT !.bq = Rest(@, h.n), !.stuck = "", !.down = @ \o p]}
          ELSE IF h.kind = "bad" THEN {[c EXCEPT !.over = TRUE]}
          ELSE IF c.beof THEN {[c EXCEPT !.over = TRUE]}
          ELSE IF h.kind = "part" /\ c.stuck = "" THEN {[c EXCEPT !.stuck = "b"]} ELSE {}

Work(c, opt) == FromClient(c, opt) \cup FromBroker(c, opt)

\* until there is nothing more to do
RECURSIVE Quiet(_, _)
Quiet(S, opt) ==
  LET busy == {c \in S : Work(c, opt) # {}}
  IN IF busy = {} THEN S
     ELSE Quiet((S \ busy) \cup UNION {Work(c, opt) : c \in busy}, opt)
=============================================================================
