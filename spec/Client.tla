------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The test client library (mqtt.clients.V311 and mqtt.clients.V5), as its *)
(* application and its server see it.  Packets are records as in Codec.    *)
(*                                                                         *)
(* A state:                                                                *)
(*  ver     5 or 4                                                         *)
(*  on      connected                                                      *)
(*  has     it holds a session                                             *)
(*  clean   the session ends with the connection                           *)
(*  paused  the application wants no publications                          *)
(*  up      it still handles what arrives                                  *)
(*  in2     packet id -> QoS 2 publication taken, not yet released         *)
(*  out     packet id -> [q, st] of unfinished publications, st "pub"/"rel"*)
(*  req     packet id -> "SUBACK"/"UNSUBACK" it waits for                  *)
(*                                                                         *)
(* Step(s, ev) is the set of possible outcomes [s, sent, calls] where sent *)
(* are the packets it writes and calls what it tells the application.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == <<>>    \* the empty function
Ids == 1..65535

Client0(ver) == [ver |-> ver, on |-> FALSE, has |-> FALSE, clean |-> TRUE, paused |-> FALSE, up |-> FALSE,
                 in2 |-> None, out |-> None, req |-> None]

Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

O(s, sent, calls) == [s |-> s, sent |-> sent, calls |-> calls]
\* not what a server should send: nothing is told to the application; the client may give up
Wrong(s) == {O(s, <<>>, <<>>), O([s EXCEPT !.up = FALSE], <<>>, <<>>)}

Ack(t, id) == [t |-> t, id |-> id, rc |-> 0, pr |-> <<>>]
Arrived(p, yes) == [c |-> "arrived", topic |-> p.topic, pay |-> p.pay, more |-> p.more, q |-> p.q, r |-> p.r, id |-> p.id, pr |-> p.pr, yes |-> yes]
Told(c, id) == [c |-> c, id |-> id]

\* a packet arrives; yes: what the application answers if it is given a message
In(s, p, yes) ==
  CASE p.t = "PUBLISH" ->
         IF s.paused THEN {O(s, <<>>, <<>>)}
         ELSE IF p.q = 0 THEN {O(s, <<>>, <<Arrived(p, yes)>>)}
         ELSE IF p.q = 1 THEN {O(s, IF yes THEN <<Ack("PUBACK", p.id)>> ELSE <<>>, <<Arrived(p, yes)>>)}
         ELSE {O([s EXCEPT !.in2 = With(s.in2, p.id, x)], <<Ack("PUBREC", p.id)>>, <<>>) :
                 x \in IF p.id \in DOMAIN s.in2 THEN {p, s.in2[p.id]} ELSE {p}}
    [] p.t = "PUBREL" ->
         IF p.id \notin DOMAIN s.in2
         THEN {O(s, <<[Ack("PUBCOMP", p.id) EXCEPT !.rc = x]>>, <<>>) : x \in IF s.ver = 5 THEN {0, 146} ELSE {0}}
         ELSE IF yes THEN {O([s EXCEPT !.in2 = Without(s.in2, p.id)], <<Ack("PUBCOMP", p.id)>>, <<Arrived(s.in2[p.id], yes)>>)}
         ELSE {O(s, <<>>, <<Arrived(s.in2[p.id], yes)>>)}
    [] p.t = "PUBACK" ->
         IF p.id \in DOMAIN s.out /\ s.out[p.id].q = 1
         THEN {O([s EXCEPT !.out = Without(s.out, p.id)], <<>>, <<Told("published", p.id)>>)}
         ELSE Wrong(s)
    [] p.t = "PUBREC" ->
         IF p.id \in DOMAIN s.out /\ s.out[p.id].q = 2
         THEN LET go == O([s EXCEPT !.out = With(s.out, p.id, [q |-> 2, st |-> "rel"])], <<Ack("PUBREL", p.id)>>, <<>>)
                  end == O([s EXCEPT !.out = Without(s.out, p.id)], <<>>, <<Told("published", p.id)>>)
              IN IF p.rc < 128 THEN {go}
                 ELSE IF s.out[p.id].st = "pub" THEN {end}
                 ELSE {end, go} \cup Wrong(s)
         ELSE Wrong(s) \cup (IF s.ver = 5 THEN {O(s, <<[Ack("PUBREL", p.id) EXCEPT !.rc = 146]>>, <<>>)} ELSE {})
    [] p.t = "PUBCOMP" ->
         IF p.id \in DOMAIN s.out /\ s.out[p.id] = [q |-> 2, st |-> "rel"]
         THEN {O([s EXCEPT !.out = Without(s.out, p.id)], <<>>, <<Told("published", p.id)>>)}
         ELSE Wrong(s)
    [] p.t \in {"SUBACK", "UNSUBACK"} ->
         IF p.id \in DOMAIN s.req /\ s.req[p.id] = p.t
         THEN {O([s EXCEPT !.req = Without(s.req, p.id)], <<>>,
                 <<IF p.t = "SUBACK" THEN [c |-> "subscribed", id |-> p.id, rcs |-> p.rcs] ELSE Told("unsubscribed", p.id)>>)}
         ELSE IF p.id \in DOMAIN s.req    \* the other kind of answer
         THEN Wrong(s) \cup {O([s EXCEPT !.req = Without(s.req, p.id)], <<>>,
                 <<IF p.t = "SUBACK" THEN [c |-> "subscribed", id |-> p.id, rcs |-> p.rcs] ELSE Told("unsubscribed", p.id)>>)}
         ELSE Wrong(s)
    [] p.t = "DISCONNECT" /\ s.ver = 5 -> {O(s, <<>>, <<[c |-> "disconnected", rc |-> p.rc, pr |-> p.pr]>>)}
    [] OTHER -> Wrong(s)

Free(s, id) == id \in Ids /\ id \notin DOMAIN s.out /\ id \notin DOMAIN s.req

\* the application's calls; id is the packet id chosen
Publish(s, m, id) ==
  IF m.q = 0 THEN {O(s, <<[t |-> "PUBLISH", dup |-> 0, q |-> 0, r |-> m.r, topic |-> m.topic, id |-> 0, pr |-> m.pr, pay |-> m.pay, more |-> m.more]>>, <<>>)}
  ELSE IF ~Free(s, id) THEN {}
  ELSE {O([s EXCEPT !.out = With(s.out, id, [q |-> m.q, st |-> "pub"])],
          <<[t |-> "PUBLISH", dup |-> 0, q |-> m.q, r |-> m.r, topic |-> m.topic, id |-> id, pr |-> m.pr, pay |-> m.pay, more |-> m.more]>>, <<>>)}
Subscribe(s, subs, pr, id) ==
  IF ~Free(s, id) THEN {}
  ELSE {O([s EXCEPT !.req = With(s.req, id, "SUBACK")], <<[t |-> "SUBSCRIBE", id |-> id, pr |-> pr, subs |-> subs]>>, <<>>)}
Unsubscribe(s, fs, id) ==
  IF ~Free(s, id) THEN {}
  ELSE {O([s EXCEPT !.req = With(s.req, id, "UNSUBACK")], <<[t |-> "UNSUBSCRIBE", id |-> id, pr |-> <<>>, fs |-> fs]>>, <<>>)}

\* connect with the CONNECT packet p; keep: the session outlives this connection
Connect(s, p, ck, keep) ==
  IF ck.rc # 0 THEN {O(s, <<p>>, <<>>)}    \* the caller is told
  ELSE LET fresh == p.clean = 1 \/ ~s.has
       IN {O([s EXCEPT !.on = TRUE, !.up = TRUE, !.has = TRUE, !.clean = ~keep, !.req = None,
                       !.in2 = IF fresh THEN None ELSE s.in2, !.out = IF fresh THEN None ELSE s.out,
                       !.paused = IF fresh THEN FALSE ELSE s.paused], <<p>>, <<>>)}

Closed(s) == IF s.clean THEN [Client0(s.ver) EXCEPT !.ver = s.ver] ELSE [s EXCEPT !.on = FALSE, !.up = FALSE, !.req = None]
\* with publications unfinished it may refuse to disconnect
Disconnect(s, pr) ==
  {O(Closed(s), <<[t |-> "DISCONNECT", rc |-> 0, pr |-> pr]>>, <<>>)}
Busy(s) == ~s.paused /\ (DOMAIN s.in2 # {} \/ DOMAIN s.out # {})

Step(s, ev) ==
  CASE ev.op = "connect" -> IF s.on \/ ev.refused # (ev.ck.rc # 0) THEN {} ELSE Connect(s, ev.p, ev.ck, ev.keep)
    [] ev.op = "in" -> IF ~s.up THEN {O(s, <<>>, <<>>)} ELSE In(s, ev.p, ev.yes)
    [] ev.op = "bad" -> IF ~s.up THEN {O(s, <<>>, <<>>)} ELSE Wrong(s)     \* not a packet
    [] ev.op = "publish" -> Publish(s, ev.m, ev.id)
    [] ev.op = "subscribe" -> Subscribe(s, ev.subs, ev.pr, ev.id)
    [] ev.op = "unsubscribe" -> Unsubscribe(s, ev.fs, ev.id)
    [] ev.op = "pause" -> {O([s EXCEPT !.paused = TRUE], <<>>, <<>>)}
    [] ev.op = "resume" -> {O([s EXCEPT !.paused = FALSE], <<>>, <<>>)}
    [] ev.op = "disconnect" -> IF ev.refused THEN (IF Busy(s) THEN {O([s EXCEPT !.up = FALSE], <<>>, <<>>)} ELSE {})
                               ELSE Disconnect(s, ev.pr)
    [] ev.op = "terminate" -> {O(Client0(s.ver), <<>>, <<>>)}
=============================================================================
