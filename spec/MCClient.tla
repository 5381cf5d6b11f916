------------------------------ MODULE MCClient ------------------------------
(***************************************************************************)
(* The client library with its application and a server, connected by two  *)
(* channels that keep the order.  The server follows MQTT but repeats      *)
(* PUBLISH and PUBREL whenever it may; with Rogue it also sends            *)
(* acknowledgements nobody asked for.                                      *)
(*  srv    the server's unfinished publications: id -> [tag, q, st]        *)
(*  got2   ids of the client's QoS 2 publications the server has taken     *)
(*  down/up channels; acc: tag -> times the application accepted it        *)
(*  done   tags the server has finished; ops: the application's operations *)
(*         [id, kind, n (times the server acted on it), told]              *)
(***************************************************************************)
EXTENDS Client, Json

CONSTANTS Ver, Rogue, Tags, Ops, Width, Sim, Depth, MaxId
VARIABLES s, srv, got2, down, up, acc, done, ops, hist, last

vars == <<s, srv, got2, down, up, acc, done, ops, hist, last>>
View == <<s, srv, got2, down, up, acc, done, ops>>

A == <<97>>
Pub(tag, q, id, dup) == [t |-> "PUBLISH", dup |-> dup, q |-> q, r |-> 0, topic |-> A, id |-> IF q = 0 THEN 0 ELSE id, pr |-> <<>>, pay |-> <<tag>>, more |-> 0]
Conn(clean) == [t |-> "CONNECT", clean |-> clean, ka |-> 0, pr |-> <<>>, cid |-> A, wf |-> 0, wq |-> 0, wr |-> 0, wpr |-> <<>>, wt |-> <<>>, wm |-> <<>>,
                uf |-> 0, user |-> <<>>, pf |-> 0, pass |-> <<>>]
Connack == [t |-> "CONNACK", sp |-> 0, rc |-> 0, pr |-> <<>>]

Log(e) == hist' = IF Sim THEN Append(hist, e) ELSE hist
Go == ~Sim \/ Len(hist) < Depth

\* the outcome u of an event
Told1(calls) == {j \in 1..Len(ops) : ops[j].told = 0 /\ \E x \in 1..Len(calls) : calls[x].c \in {"published", "subscribed", "unsubscribed"} /\ calls[x].id = ops[j].id}
Min2(n) == IF n > 2 THEN 2 ELSE n
Account(u, yes) ==
  /\ s' = u.s
  /\ last' = [calls |-> u.calls, yes |-> yes]
  /\ acc' = [t \in Tags |-> Min2(acc[t] + Cardinality({x \in 1..Len(u.calls) : yes /\ u.calls[x].c = "arrived" /\ u.calls[x].pay = <<t>>}))]

Init ==
  /\ s \in {u.s : u \in Step(Client0(Ver), [op |-> "connect", p |-> Conn(0), ck |-> Connack, keep |-> TRUE, refused |-> FALSE])}
  /\ srv = None /\ got2 = {} /\ down = <<>> /\ up = <<>> /\ acc = [t \in Tags |-> 0] /\ done = {} /\ ops = <<>>
  /\ hist = <<>> /\ last = [calls |-> <<>>, yes |-> FALSE]

Fits == Len(down) < Width /\ Len(up) < Width

SrvPublish ==
  /\ s.on /\ Fits
  /\ \E t \in Tags, q \in 0..2, id \in 1..2 :
       /\ t \notin done /\ (\A x \in DOMAIN srv : srv[x].tag # t) /\ (\A x \in Tags : x < t => x \in done \/ \E y \in DOMAIN srv : srv[y].tag = x)
       /\ q > 0 => id \notin DOMAIN srv
       /\ q = 0 => id = 1
       /\ srv' = IF q = 0 THEN srv ELSE With(srv, id, [tag |-> t, q |-> q, st |-> "pub"])
       /\ done' = IF q = 0 THEN done \cup {t} ELSE done
       /\ down' = Append(down, Pub(t, q, id, 0))
  /\ UNCHANGED <<s, got2, up, acc, ops, hist, last>>

SrvRepeat ==
  /\ s.on /\ Fits
  /\ \E id \in {x \in DOMAIN srv : srv[x].q = 2} :   \* a second PUBACK could be taken for another publication's
       down' = Append(down, IF srv[id].st = "pub" THEN Pub(srv[id].tag, srv[id].q, id, 1) ELSE Ack("PUBREL", id))
  /\ UNCHANGED <<s, srv, got2, up, acc, done, ops, hist, last>>

SrvRogue ==
  /\ Rogue /\ s.on /\ Fits
  /\ \E t \in {"PUBACK", "PUBREC", "PUBCOMP", "PUBREL", "SUBACK"}, id \in 1..MaxId :
       down' = Append(down, IF t = "SUBACK" THEN [t |-> t, id |-> id, pr |-> <<>>, rcs |-> <<0>>] ELSE Ack(t, id))
  /\ UNCHANGED <<s, srv, got2, up, acc, done, ops, hist, last>>

\* the server handles what the client sent
OpOf(id) == CHOOSE j \in 1..Len(ops) : ops[j].id = id /\ \A x \in 1..Len(ops) : ops[x].id = id => x <= j
SrvHandle ==
  /\ up # <<>> /\ Len(down) < Width
  /\ up' = Tail(up)
  /\ LET p == up[1]
     IN /\ srv' = CASE p.t \in {"PUBACK", "PUBCOMP"} /\ p.id \in DOMAIN srv /\ srv[p.id].st = (IF p.t = "PUBACK" THEN "pub" ELSE "rel")
                         /\ srv[p.id].q = (IF p.t = "PUBACK" THEN 1 ELSE 2) -> Without(srv, p.id)
                    [] p.t = "PUBREC" /\ p.id \in DOMAIN srv /\ srv[p.id].q = 2 -> [srv EXCEPT ![p.id].st = "rel"]
                    [] OTHER -> srv
        /\ done' = done \cup {srv[x].tag : x \in DOMAIN srv \ DOMAIN srv'}
        /\ down' = CASE p.t = "PUBREC" /\ p.id \in DOMAIN srv /\ srv[p.id].q = 2 -> Append(down, Ack("PUBREL", p.id))
                     [] p.t = "PUBLISH" /\ p.q = 1 -> Append(down, Ack("PUBACK", p.id))
                     [] p.t = "PUBLISH" /\ p.q = 2 -> Append(down, Ack("PUBREC", p.id))
                     [] p.t = "PUBREL" -> Append(down, Ack("PUBCOMP", p.id))
                     [] p.t = "SUBSCRIBE" -> Append(down, [t |-> "SUBACK", id |-> p.id, pr |-> <<>>, rcs |-> <<0>>])
                     [] p.t = "UNSUBSCRIBE" -> Append(down, [t |-> "UNSUBACK", id |-> p.id, pr |-> <<>>, rcs |-> IF Ver = 5 THEN <<0>> ELSE <<>>])
                     [] OTHER -> down
        /\ got2' = CASE p.t = "PUBLISH" /\ p.q = 2 -> got2 \cup {p.id}
                     [] p.t = "PUBREL" -> got2 \ {p.id}
                     [] OTHER -> got2
        /\ ops' = IF (p.t \in {"SUBSCRIBE", "UNSUBSCRIBE"}) \/ (p.t = "PUBLISH" /\ p.q = 1) \/ (p.t = "PUBLISH" /\ p.q = 2 /\ p.id \notin got2)
                  THEN [ops EXCEPT ![OpOf(p.id)].n = @ + 1] ELSE ops
  /\ UNCHANGED <<s, acc, hist, last>>

Take ==
  /\ down # <<>> /\ s.on /\ s.up /\ Len(up) < Width /\ Go
  /\ down' = Tail(down)
  /\ \E yes \in BOOLEAN : \E u \in Step(s, [op |-> "in", p |-> down[1], yes |-> yes]) :
       /\ (down[1].t \notin {"PUBLISH", "PUBREL"}) => yes
       /\ Account(u, yes)
       /\ up' = up \o u.sent
       /\ ops' = [j \in 1..Len(ops) |-> IF j \in Told1(u.calls) THEN [ops[j] EXCEPT !.told = 1] ELSE ops[j]]
       /\ Log([op |-> "in", p |-> down[1], yes |-> yes])
  /\ UNCHANGED <<srv, got2, done>>

App(e, kind) ==
  /\ s.on /\ s.up /\ Len(ops) < Ops /\ Len(up) < Width /\ Go
  /\ \E id \in 1..MaxId : \E u \in Step(s, [e EXCEPT !.id = id]) :
       /\ \A x \in 1..MaxId : x < id => ~Free(s, x)
       /\ Account(u, FALSE)
       /\ up' = up \o u.sent
       /\ ops' = Append(ops, [id |-> id, kind |-> kind, n |-> 0, told |-> 0])
       /\ Log([e EXCEPT !.id = id])
  /\ UNCHANGED <<srv, got2, down, done>>
AppPublish == \E q \in 1..2 : App([op |-> "publish", id |-> 0, m |-> [topic |-> A, pay |-> <<100 + Len(ops)>>, more |-> 0, q |-> q, r |-> 0, pr |-> <<>>]], "publish")
AppSubscribe == App([op |-> "subscribe", id |-> 0, pr |-> <<>>, subs |-> <<[f |-> A, o |-> [q |-> 1, nl |-> 0, rap |-> 0, rh |-> 0]]>>], "subscribe")
AppUnsubscribe == App([op |-> "unsubscribe", id |-> 0, fs |-> <<A>>], "unsubscribe")

Pause ==
  /\ s.on /\ Go
  /\ LET e == [op |-> IF s.paused THEN "resume" ELSE "pause"]
     IN /\ \E u \in Step(s, e) : Account(u, FALSE)
        /\ Log(e)
  /\ UNCHANGED <<srv, got2, down, up, done, ops>>

\* the connection is closed; what was under way is lost, the sessions stay
Leave ==
  /\ s.on /\ s.up /\ ~Busy(s) /\ DOMAIN s.out = {} /\ Go
  /\ \E u \in Step(s, [op |-> "disconnect", refused |-> FALSE, pr |-> <<>>]) : Account(u, FALSE)
  /\ down' = <<>> /\ up' = <<>>
  /\ Log([op |-> "disconnect", refused |-> FALSE, pr |-> <<>>])
  /\ ops' = [j \in 1..Len(ops) |-> IF ops[j].told = 0 THEN [ops[j] EXCEPT !.told = 2] ELSE ops[j]]   \* given up
  /\ UNCHANGED <<srv, got2, done>>

RECURSIVE Resend(_, _)
Resend(f, ids) == IF ids = {} THEN <<>>
                  ELSE LET x == CHOOSE y \in ids : \A z \in ids : y <= z
                       IN <<IF f[x].st = "pub" THEN Pub(f[x].tag, f[x].q, x, 1) ELSE Ack("PUBREL", x)>> \o Resend(f, ids \ {x})
Return ==
  /\ ~s.on /\ Go
  /\ LET e == [op |-> "connect", p |-> Conn(0), ck |-> Connack, keep |-> TRUE, refused |-> FALSE]
     IN /\ \E u \in Step(s, e) : Account(u, FALSE)
        /\ Log(e)
  /\ down' = Resend(srv, DOMAIN srv) /\ up' = <<>>
  /\ UNCHANGED <<srv, got2, done, ops>>

Idle == Sim /\ Len(hist) >= Depth /\ UNCHANGED vars
Next == SrvPublish \/ SrvRepeat \/ SrvRogue \/ SrvHandle \/ Take \/ AppPublish \/ AppSubscribe \/ AppUnsubscribe \/ Pause \/ Leave \/ Return \/ Idle

------------------------------------------------------------------------------
TagQ(t) == {srv[x].q : x \in {y \in DOMAIN srv : srv[y].tag = t}}
\* a QoS 2 message is accepted at most once; tags with QoS 2 are remembered by the server until they are done
AtMostOnce == \A x \in DOMAIN srv : srv[x].q = 2 => acc[srv[x].tag] <= 1
\* what is released is accepted: with its PUBREL answered, the message has been given to the application exactly once
Released == [][\A t \in done' \ done : t \in Tags =>
                 LET x == {y \in DOMAIN srv : srv[y].tag = t} IN
                 x # {} => LET q == srv[CHOOSE y \in x : TRUE].q IN (q = 2 => acc'[t] = 1) /\ (q = 1 => acc'[t] >= 1)]_vars
\* an operation is reported at most once, and not before the server has acted on it, once
Reported == \A j \in 1..Len(ops) : (ops[j].told = 1 => ops[j].n = 1) /\ ops[j].n <= 1
\* told means finished, and nothing unfinished is forgotten
Unfinished == {ops[j].id : j \in {x \in 1..Len(ops) : ops[x].told = 0}} = DOMAIN s.out \cup DOMAIN s.req
Distinct == /\ DOMAIN s.out \cap DOMAIN s.req = {}
            /\ \A x, y \in 1..Len(ops) : (x # y /\ ops[x].told = 0 /\ ops[y].told = 0) => ops[x].id # ops[y].id
\* what the application is told of an operation is told of an unfinished one
TellsOnce == [][\A x \in 1..Len(last'.calls) : last'.calls[x].c \in {"published", "subscribed", "unsubscribed"} /\ last' # last =>
                  last'.calls[x].id \in DOMAIN s.out \cup DOMAIN s.req]_vars
Paused == last.calls # <<>> /\ s.paused => last.calls[1].c # "arrived" \/ last.calls[1].q = 2

Written == (Sim /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
