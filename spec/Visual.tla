------------------------------- MODULE Visual -------------------------------
(***************************************************************************)
(* Monitoring.  With the setting `visual` the broker publishes a report of *)
(* every MQTT 5.0 packet it receives or sends, with QoS 0, on the topic    *)
(* $SYS/clients-packets.  Reports are not themselves reported.  With       *)
(* `mscfile` it writes a line for each of these packets to a file.         *)
(*                                                                         *)
(* A report: [dir, k, cid, cls, q, d, r, id, t, pay, rc, al, exp, fs, sp, pr, sids]  *)
(* direction, connection, client, class of the packet, and what it says.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ClassOf(p) ==
  CASE p = "CONNECT" -> "Connects" [] p = "CONNACK" -> "Connacks" [] p = "PUBLISH" -> "Publishes" [] p = "PUBACK" -> "Pubacks"
    [] p = "PUBREC" -> "Pubrecs" [] p = "PUBREL" -> "Pubrels" [] p = "PUBCOMP" -> "Pubcomps" [] p = "SUBSCRIBE" -> "Subscribes"
    [] p = "SUBACK" -> "Subacks" [] p = "UNSUBSCRIBE" -> "Unsubscribes" [] p = "UNSUBACK" -> "Unsubacks" [] p = "PINGREQ" -> "Pingreqs"
    [] p = "PINGRESP" -> "Pingresps" [] p = "DISCONNECT" -> "Disconnects" [] p = "AUTH" -> "Auths" [] OTHER -> p

RcName(p, c) ==
  CASE c = 0 -> (IF p = "SUBACK" THEN "Granted QoS 0" ELSE IF p = "DISCONNECT" THEN "Normal disconnection" ELSE "Success")
    [] c = 1 -> "Granted QoS 1" [] c = 2 -> "Granted QoS 2" [] c = 4 -> "Disconnect with will message"
    [] c = 16 -> "No matching subscribers" [] c = 17 -> "No subscription found" [] c = 128 -> "Unspecified error"
    [] c = 129 -> "Malformed packet" [] c = 130 -> "Protocol error" [] c = 131 -> "Implementation specific error"
    [] c = 132 -> "Unsupported protocol version" [] c = 133 -> "Client identifier not valid" [] c = 135 -> "Not authorized"
    [] c = 139 -> "Server shutting down" [] c = 141 -> "Keep alive timeout" [] c = 142 -> "Session taken over"
    [] c = 143 -> "Topic filter invalid" [] c = 144 -> "Topic name invalid" [] c = 145 -> "Packet identifier in use"
    [] c = 146 -> "Packet identifier not found" [] c = 147 -> "Receive maximum exceeded" [] c = 148 -> "Topic alias invalid"
    [] c = 149 -> "Packet too large" [] c = 151 -> "Quota exceeded" [] c = 153 -> "Payload format invalid" [] OTHER -> "?"

Rcs(p, q) == [j \in 1..Len(q) |-> RcName(p, q[j])]
NonZero(q) == IF q = <<0>> THEN <<>> ELSE q

Base(dir, k, cid, p) == [dir |-> dir, k |-> k, cid |-> cid, cls |-> ClassOf(p), q |-> 0, d |-> 0, r |-> 0, id |-> 0, t |-> <<>>, pay |-> "",
                         rc |-> <<>>, al |-> 0, exp |-> -1, fs |-> <<>>, sp |-> 0, pr |-> "", sids |-> <<>>]

\* the report of the packet that event ev stands for, from a client known as cid
InView(ev, cid) ==
  LET b == Base("CtoS", ev.k, cid, ev.e)
  IN CASE ev.e = "PUBLISH" -> [b EXCEPT !.q = ev.q, !.d = ev.d, !.r = ev.r, !.id = IF ev.q > 0 THEN ev.id ELSE 0, !.t = ev.t, !.pay = ev.pay,
                                        !.al = IF ev.al < 0 THEN 0 ELSE ev.al, !.exp = ev.exp, !.pr = ev.pr]
       [] ev.e \in {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"} -> [b EXCEPT !.id = ev.id, !.q = IF ev.e = "PUBREL" THEN 1 ELSE 0, !.rc = Rcs(ev.e, NonZero(<<ev.rc>>))]
       [] ev.e = "DISCONNECT" -> [b EXCEPT !.rc = Rcs(ev.e, <<ev.rc>>)]
       [] ev.e = "SUBSCRIBE" ->
            [b EXCEPT !.id = ev.id, !.q = 1, !.pr = ev.pr, !.fs = ev.subs, !.sids = IF ev.sid > 0 THEN <<ev.sid>> ELSE <<>>]
       [] ev.e = "UNSUBSCRIBE" ->
            [b EXCEPT !.id = ev.id, !.q = 1, !.pr = ev.pr,
                      !.fs = [j \in 1..Len(ev.subs) |-> [share |-> ev.subs[j].share, f |-> ev.subs[j].f, q |-> 0, nl |-> FALSE, rap |-> FALSE, rh |-> 0]]]
       [] ev.e = "CONNECT" ->
            LET c == [b EXCEPT !.sp = IF ev.clean THEN 1 ELSE 0, !.exp = ev.exp]
            IN IF ev.will.on THEN [c EXCEPT !.t = ev.will.t, !.pay = ev.will.pay, !.q = ev.will.q, !.r = ev.will.r, !.pr = ev.will.pr] ELSE c
       [] OTHER -> b

\* the report of packet p sent on connection k
OutView(k, cid, p) ==
  LET b == Base("StoC", k, cid, p.p)
  IN CASE p.p = "PUBLISH" -> [b EXCEPT !.q = p.q, !.d = p.d, !.r = p.r, !.id = p.id, !.t = p.t, !.pay = p.pay, !.al = p.al, !.exp = p.exp, !.pr = p.pr, !.sids = p.sids]
       [] p.p \in {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"} -> [b EXCEPT !.id = p.id, !.q = IF p.p = "PUBREL" THEN 1 ELSE 0, !.rc = Rcs(p.p, NonZero(p.rc))]
       [] p.p \in {"CONNACK", "DISCONNECT"} -> [b EXCEPT !.rc = Rcs(p.p, p.rc), !.sp = p.sp]
       [] p.p \in {"SUBACK", "UNSUBACK"} -> [b EXCEPT !.id = p.id, !.rc = Rcs(p.p, p.rc), !.pr = p.pr]
       [] OTHER -> b

\* whether the report r is as it must be, but for the name of a client that is just coming or going
Same(r, w) == r = w \/ (r.cid = "" /\ w.cls \in {"Connacks", "Disconnects"} /\ [r EXCEPT !.cid = w.cid] = w)

Of(rs, k) == SelectSeq(rs, LAMBDA x : x.k = k)

\* Reports rs of one step.  ins: the packets received, in order: [v: their report, maybe: may be missing because they were refused];
\* outs: connection -> the reports of what was sent there
RECURSIVE Ins(_, _)
Ins(rs, ins) ==   \* is rs, the reports of packets received, what ins asks for?
  IF ins = <<>> THEN rs = <<>>
  ELSE \/ rs # <<>> /\ (Same(rs[1], ins[1].v) \/ (ins[1].maybe /\ rs[1].k = ins[1].v.k)) /\ Ins(Tail(rs), Tail(ins))
       \/ ins[1].maybe /\ Ins(rs, Tail(ins))

Reports(rs, ins, outs, together) ==
  LET up == SelectSeq(rs, LAMBDA x : x.dir = "CtoS")
      down == SelectSeq(rs, LAMBDA x : x.dir = "StoC")
  IN /\ Len(up) + Len(down) = Len(rs)
     /\ \/ Ins(up, ins)
        \/ together /\ Len(ins) = 2 /\ Ins(up, <<ins[2], ins[1]>>)     \* at the same time: in either order
     /\ \A j \in 1..Len(down) : down[j].k \in DOMAIN outs
     /\ \A k \in DOMAIN outs : LET o == Of(down, k) IN Len(o) = Len(outs[k]) /\ \A j \in 1..Len(o) : Same(o[j], outs[k][j])
     \* a packet is reported when it is received, before what is sent because of it
     /\ (~together /\ Len(ins) = 1 /\ up # <<>>) => rs[1].dir = "CtoS"

(* ---- the file ---- *)
\* a line [dir, fd, cls]; m: connection -> the number it has in the file
Line(dir, fd, cls) == [dir |-> dir, fd |-> fd, cls |-> cls]
Count(q, x) == Cardinality({j \in 1..Len(q) : q[j] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Count(a, a[j]) = Count(b, a[j])
=============================================================================
