------------------------------ MODULE MCVisual ------------------------------
(***************************************************************************)
(* How reports come about, packet by packet: a report of a packet is       *)
(* itself published to the observers, some of which speak MQTT 5.0.  What  *)
(* each observer gets in a step is judged by the same operator, Reports,   *)
(* as the recorded runs are (TraceVisual).                                 *)
(***************************************************************************)
EXTENDS Visual
CONSTANTS Clients,      \* application clients, all MQTT 5.0
          Obs5, Obs3,   \* observers of either version
          Steps,        \* how many packets are received
          Own           \* TRUE: reports are reported too (what must not be)

Topic == "clients-packets"
All == Clients \cup Obs5 \cup Obs3
Five == Clients \cup Obs5

\* subs: application topic -> its subscribers; todo: what the broker has yet to do for the packet being handled;
\* log: observer -> the reports it got in this step; ins, outs: the packets of this step
VARIABLES n, subs, todo, log, ins, outs
vars == <<n, subs, todo, log, ins, outs>>

ev(e, k, t) == [e |-> e, k |-> k, q |-> 0, d |-> 0, r |-> 0, id |-> 1, t |-> t, pay |-> "x", al |-> 0, exp |-> -1, rc |-> 0, pr |-> "", sid |-> 0, subs |-> <<[share |-> "", f |-> <<"a">>, q |-> 0, nl |-> FALSE, rap |-> FALSE, rh |-> 0]>>]
pk(p, t) == [p |-> p, q |-> 0, d |-> 0, r |-> 0, id |-> IF p = "SUBACK" THEN 1 ELSE 0, t |-> t, pay |-> "x", al |-> 0, exp |-> -1, rc |-> IF p = "SUBACK" THEN <<0>> ELSE <<>>, sp |-> 0, pr |-> "", sids |-> <<>>]
Nm(k) == ToString(k)

Init == /\ n = 0 /\ subs = {} /\ todo = <<>> /\ ins = <<>>
        /\ log = [o \in Obs5 \cup Obs3 |-> <<>>]
        /\ outs = [k \in {} |-> <<>>]

Pub(k) == ev("PUBLISH", k, <<"a">>)
\* the next packet: only when the last one has been dealt with
Receive(k, e) ==
  /\ todo = <<>> /\ n < Steps /\ n' = n + 1
  /\ ins' = <<[v |-> InView(e, Nm(k)), maybe |-> FALSE]>>
  /\ outs' = [x \in {} |-> <<>>]
  /\ log' = [o \in Obs5 \cup Obs3 |-> <<>>]
  /\ todo' = <<[do |-> "report", r |-> InView(e, Nm(k))], [do |-> "handle", e |-> e]>>
  /\ subs' = subs

RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ListOf(S \ {x})

\* one action of the broker: in the code these are nested calls, here a stack
Work ==
  /\ todo # <<>>
  /\ LET a == todo[1] rest == Tail(todo)
     IN CASE a.do = "report" ->
               /\ todo' = [j \in 1..Cardinality(Obs5 \cup Obs3) |-> [do |-> "tell", k |-> ListOf(Obs5 \cup Obs3)[j], r |-> a.r]] \o rest
               /\ UNCHANGED <<subs, log, outs>>
          [] a.do = "tell" ->       \* the report is sent to observer a.k, as a packet
               /\ log' = [log EXCEPT ![a.k] = Append(@, a.r)]
               /\ todo' = (IF Own /\ a.k \in Five THEN <<[do |-> "report", r |-> OutView(a.k, Nm(a.k), pk("PUBLISH", <<Topic>>))]>> ELSE <<>>) \o rest
               /\ UNCHANGED <<subs, outs>>
          [] a.do = "handle" ->
               LET to == CASE a.e.e = "PUBLISH" -> ListOf(subs) [] OTHER -> <<a.e.k>>
                   p == CASE a.e.e = "PUBLISH" -> pk("PUBLISH", <<"a">>) [] a.e.e = "SUBSCRIBE" -> pk("SUBACK", <<>>) [] OTHER -> pk("PINGRESP", <<>>)
               IN /\ todo' = [j \in 1..Len(to) |-> [do |-> "send", k |-> to[j], p |-> p]] \o rest
                  /\ subs' = IF a.e.e = "SUBSCRIBE" THEN subs \cup {a.e.k} ELSE subs
                  /\ UNCHANGED <<log, outs>>
          [] a.do = "send" ->
               /\ todo' = (IF a.k \in Five THEN <<[do |-> "report", r |-> OutView(a.k, Nm(a.k), a.p)]>> ELSE <<>>) \o rest
               /\ outs' = IF a.k \notin Five THEN outs
                          ELSE [x \in DOMAIN outs \cup {a.k} |-> (IF x \in DOMAIN outs THEN outs[x] ELSE <<>>) \o (IF x = a.k THEN <<OutView(a.k, Nm(a.k), a.p)>> ELSE <<>>)]
               /\ UNCHANGED <<subs, log>>
  /\ UNCHANGED <<n, ins>>

Next == \/ \E k \in Five : \E e \in {Pub(k), ev("SUBSCRIBE", k, <<>>), ev("PINGREQ", k, <<>>)} : Receive(k, e)
        \/ Work

\* what each observer got is what it has to get, no more and no less
Right == todo = <<>> => \A o \in Obs5 \cup Obs3 : Reports(log[o], ins, outs, FALSE)
\* and all of them the same
Agree == todo = <<>> => \A o, u \in Obs5 \cup Obs3 : log[o] = log[u]
\* the broker comes to an end with each packet
Ends == Len(todo) <= (3 * Cardinality(All)) + 4 /\ \A o \in Obs5 \cup Obs3 : Len(log[o]) <= Cardinality(Five) + 2
=============================================================================
